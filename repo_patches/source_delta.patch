From f8edb4d0d8f14e43b65b715fc491f9608b7b0449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:31 +0000
Subject: [PATCH 01/39] fix: serialize no longer writes the resolved tag into
 the metadata it was given

The entries of a queue or a stack share one ObjectMeta, so every entry after
the first was written with the tag of the first one; metadata passed by a
caller was changed in the same way.
---
 src/pypsrp/serializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 4a6fce7..6a37036 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -102,6 +102,9 @@ class Serializer(object):
 
         metadata = metadata or ObjectMeta()
         if metadata.tag == "*":
+            # resolve the tag on a copy, the caller can use the same metadata
+            # for values of a different type
+            metadata = copy(metadata)
             if isinstance(value, TaggedValue):
                 metadata.tag = value.tag
                 value = value.value
-- 
2.43.0


From c579ca115bd895bd028e3f0389b42a64fb802630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:02 +0000
Subject: [PATCH 02/39] fix: lists and dictionaries inside a System.Object[]
 are deserialized as such

They came back as a GenericComplexObject that held their raw XML, so a nested
list or a list of dictionaries did not survive a round trip.
---
 src/pypsrp/serializer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 6a37036..d4fa13b 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -338,7 +338,11 @@ class Serializer(object):
                 obj_meta = structures.get(obj_type)
                 if obj_meta is not None:
                     metadata = obj_meta
-                    if is_list:
+                    if is_list and obj_type == "System.Object":
+                        # the entries can be anything, including other lists
+                        # and dictionaries
+                        metadata = ListMeta(list_value_meta=ObjectMeta("Obj"))
+                    elif is_list:
                         metadata = ListMeta(list_value_meta=metadata)
                     break
 
-- 
2.43.0


From 27c80fb73ab9bc2cff585e2a7470287a6a02973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:14 +0000
Subject: [PATCH 03/39] fix: a TNRef is only written for an identical list of
 types

The lists were looked up by their first type alone, so an object whose type
list shares only the first name was sent with the types of another object.
---
 src/pypsrp/serializer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index d4fa13b..2c87b30 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -842,12 +842,12 @@ class Serializer(object):
         parent: ET.Element,
         types: typing.List[str],
     ) -> None:
-        main_type = types[0]
-        ref_id = self.tn.get(main_type, None)
+        type_names = tuple(types)
+        ref_id = self.tn.get(type_names, None)
         if ref_id is None:
             ref_id = self.tn_id
             self.tn_id += 1
-            self.tn[main_type] = ref_id
+            self.tn[type_names] = ref_id
 
             tn = ET.SubElement(parent, "TN", RefId=str(ref_id))
             for type_name in types:
-- 
2.43.0


From a24a8af5f6cfa7f72440850d45b65deaf9387f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:24 +0000
Subject: [PATCH 04/39] fix: deserialize an empty byte array

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 2c87b30..34f7235 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -215,7 +215,7 @@ class Serializer(object):
             "Sg": lambda d: float(d.text),
             "Db": lambda d: float(d.text),
             "D": lambda d: d.text,  # TODO: deserialize this
-            "BA": lambda d: base64.b64decode(d.text),
+            "BA": lambda d: base64.b64decode(d.text or ""),
             "G": lambda d: uuid.UUID(d.text),
             "URI": lambda d: self._deserialize_string(d.text),
             "Nil": lambda d: None,
-- 
2.43.0


From c287ab7add71b3ee2a6e6f4876db50548dd96117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:45 +0000
Subject: [PATCH 05/39] fix: decode _xHHHH_ escapes on characters instead of on
 UTF-16 bytes

The byte pattern could match across characters, and it took any word
character for a hex digit, so a string like '_xZZZZ_' raised an error.
---
 src/pypsrp/serializer.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 34f7235..30408ff 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -64,10 +64,8 @@ class Serializer(object):
         # encode according to the PSRP rules
         self._serial_str = re.compile("[\u0000-\u001f\u007f-\u009f\U00010000-\U0010ffff]")
 
-        # to support surrogate UTF-16 pairs we need to use a UTF-16 regex
-        # so we can replace the UTF-16 string representation with the actual
-        # UTF-16 byte value and then decode that
-        self._deserial_str = re.compile(b"\\x00_\\x00x([\\0\\w]{8})\\x00_")
+        # Finds the escaped UTF-16 code units in a serialized string
+        self._deserial_str = re.compile("_x([0-9A-Fa-f]{4})_")
 
     def serialize(
         self,
@@ -774,24 +772,14 @@ class Serializer(object):
             return ""
 
         def rplcr(matchobj):
-            # The matched object is the UTF-16 byte representation of the UTF-8
-            # hex string value. We need to decode the byte str to unicode and
-            # then unhexlify that hex string to get the actual bytes of the
-            # _x****_ value, e.g.
-            # group(0) == b"\x00_\x00x\x000\x000\x000\x00A\x00_"
-            # group(1) == b"\x000\x000\x000\x00A"
-            # unicode (from utf-16-be) == u"000A"
-            # returns b"\x00\x0A"
-            match_hex = matchobj.group(1)
-            hex_string = to_unicode(match_hex, encoding="utf-16-be")
-            return binascii.unhexlify(hex_string)
-
-        # need to ensure we start with a unicode representation of the string
-        # so that we can get the actual UTF-16 bytes value from that string
-        unicode_value = to_unicode(value)
-        unicode_bytes = to_bytes(unicode_value, encoding="utf-16-be")
-        bytes_value = re.sub(self._deserial_str, rplcr, unicode_bytes)
-        return to_unicode(bytes_value, encoding="utf-16-be")
+            # group(1) is the hex form of one UTF-16 code unit, e.g. _x000A_
+            return chr(int(matchobj.group(1), 16))
+
+        unicode_value = re.sub(self._deserial_str, rplcr, to_unicode(value))
+
+        # a character outside the BMP is escaped as its 2 surrogates, join them
+        utf16_bytes = unicode_value.encode("utf-16-be", "surrogatepass")
+        return utf16_bytes.decode("utf-16-be", "surrogatepass")
 
     def _deserialize_secure_string(self, value: ET.Element) -> typing.Union[ET.Element, str]:
         if self.cipher is None:
-- 
2.43.0


From e98e5e15180fb8dbbed79a41ee67bb5e26f4b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:49 +0000
Subject: [PATCH 06/39] fix: keep room for the fragment header when the
 envelope size is raised

After the session capability exchange a full fragment was 21 bytes larger than
the payload that fits into the envelope.
---
 src/pypsrp/powershell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 62f1194..0898c9c 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -843,7 +843,7 @@ class RunspacePool(object):
         # default, update the envelope size to 500KiB
         if version_equal_or_newer(msg.protocol_version or "", "2.2") and self.connection.max_envelope_size == 153600:
             self.connection.update_max_payload_size(512000)
-            self._fragmenter.max_size = self.connection.max_payload_size
+            self._fragmenter.max_size = self.connection.max_payload_size - 21  # take away the fragment header size
 
     def _process_runspacepool_init_data(
         self,
-- 
2.43.0


From 804ee789d3e2543585f01a32c583fc422b1c8323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:00 +0000
Subject: [PATCH 07/39] fix: start the key exchange when the server asks for
 the public key

The handler returned the method instead of calling it.
---
 src/pypsrp/powershell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 0898c9c..b58a26d 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -751,7 +751,7 @@ class RunspacePool(object):
             # the possible responses and so we will just ignore for now
             MessageType.SESSION_CAPABILITY: self._process_session_capability,
             MessageType.ENCRYPTED_SESSION_KEY: self._process_encrypted_session_key,
-            MessageType.PUBLIC_KEY_REQUEST: lambda m: self.exchange_keys,
+            MessageType.PUBLIC_KEY_REQUEST: lambda m: self.exchange_keys(),
             MessageType.RUNSPACEPOOL_INIT_DATA: self._process_runspacepool_init_data,
             MessageType.RUNSPACE_AVAILABILITY: self._process_runspacepool_availability,
             MessageType.RUNSPACEPOOL_STATE: self._process_runspacepool_state,
-- 
2.43.0


From 446a6caf8498623c4abb71c9cfdb009f922a25d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:10 +0000
Subject: [PATCH 08/39] fix: get_available_runspaces no longer changes
 max_runspaces

The number of runspaces that are free was stored as the maximum of the pool.
---
 src/pypsrp/powershell.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index b58a26d..76a551a 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -391,7 +391,6 @@ class RunspacePool(object):
         """
 
         def response_handler(response):
-            self._max_runspaces = response
             return response
 
         ci = self._ci_counter
-- 
2.43.0


From 3953fa92faccba76a436589b139d88c99ab24ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:20 +0000
Subject: [PATCH 09/39] fix: send all the fragments of the negotiation when
 opening a pool

With large application arguments only the first block was sent and the server
waited for the rest of the message.
---
 src/pypsrp/powershell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 76a551a..2aaa78e 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -564,6 +564,10 @@ class RunspacePool(object):
         self.shell.open(options, open_content)
         self.state = RunspacePoolState.NEGOTIATION_SENT
 
+        # send what did not fit into the creation request
+        for fragment in fragments:
+            self.shell.send("stdin", fragment)
+
         responses = []
         while self.state == RunspacePoolState.NEGOTIATION_SENT:
             responses.extend(self._receive())
-- 
2.43.0


From f2de93253d2c6bedcd6424caf8e69c1684cb0dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:30 +0000
Subject: [PATCH 10/39] fix: always end the pipeline input that was announced

An empty generator raised StopIteration, one that yields None stopped without
the end of input message, and a falsy input like 0 was sent although the
pipeline was created without input.
---
 src/pypsrp/powershell.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 2aaa78e..70556ea 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1232,7 +1232,7 @@ class PowerShell(object):
         if len(self.commands) == 0:
             raise InvalidPSRPOperation("Cannot invoke PowerShell without any commands being set")
 
-        no_input = input is None or not input
+        no_input = input is None
         apartment_state = apartment_state or self.runspace_pool.apartment_state
         host_info = HostInfo(host=self.runspace_pool.host)
 
@@ -1263,18 +1263,21 @@ class PowerShell(object):
                 input = input_gen(input)  # type: ignore[arg-type]
 
             log.info("Sending input to remote Pipeline")
-            next_input = next(input)
-            while next_input is not None:
-                if not isinstance(next_input, list):
+            end_of_input = object()
+            next_input = next(input, end_of_input)
+            more_input = True
+            while more_input:
+                if next_input is end_of_input:  # the generator is empty
+                    next_input = []
+                elif not isinstance(next_input, list):
                     next_input = [next_input]
 
                 input_msgs: typing.List[ComplexObject] = [PipelineInput(data=d) for d in next_input]
 
-                try:
-                    next_input = next(input)
-                except StopIteration:
+                next_input = next(input, end_of_input)
+                if next_input is end_of_input:
                     input_msgs.append(EndOfPipelineInput())
-                    next_input = None
+                    more_input = False
 
                 fragments = self.runspace_pool._fragmenter.fragment_multiple(input_msgs, self.runspace_pool.id, self.id)
 
-- 
2.43.0


From b52c45d5f8469820e093200778dd6758608819b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:40 +0000
Subject: [PATCH 11/39] fix: serialize an empty Array and an Array that was
 deserialized

---
 src/pypsrp/complex_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 0390b23..61cddfa 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -1464,7 +1464,7 @@ class Array(ComplexObject):
     def mae(self):
         # elements of the array are flattened into a list and ordered by first
         # listing the deepest elements
-        mae = self._get_list_entries(self._array)
+        mae = self._get_list_entries(self.array)
         return mae
 
     @mae.setter
@@ -1516,7 +1516,7 @@ class Array(ComplexObject):
         while True:
             if isinstance(current_entry, list):
                 count.append(len(current_entry))
-                current_entry = current_entry[0]
+                current_entry = current_entry[0] if current_entry else None
             else:
                 break
 
-- 
2.43.0


From a7d007cc303a1bd09bb3df41cdb6fb0e9c7fa895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:50 +0000
Subject: [PATCH 12/39] fix: building the statements of a pipeline no longer
 ends one in the caller's commands

---
 src/pypsrp/complex_objects.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 61cddfa..b8ae975 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -509,8 +509,6 @@ class Pipeline(ComplexObject):
         statements = []
         current_statement = []
 
-        # set the last command to be the end of the statement
-        self.commands[-1].end_of_statement = True
         for command in self.commands:
             # need to use deepcopy as the values can be appended to multiple
             # parents and in lxml that removes it from the original parent,
@@ -520,6 +518,12 @@ class Pipeline(ComplexObject):
                 statements.append(current_statement)
                 current_statement = []
 
+        # the last command always ends its statement, the command itself is not
+        # changed as more commands can be added to it for another invocation
+        if current_statement:
+            current_statement[-1].end_of_statement = True
+            statements.append(current_statement)
+
         return statements
 
 
-- 
2.43.0


From 20b22145d7f2a7008049987aeec4afd35c7f64c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:53 +0000
Subject: [PATCH 13/39] fix: is_alive treats a HTTP read timeout as a closed
 pool

---
 src/pypsrp/powershell.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 70556ea..1b00214 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -701,7 +701,12 @@ class RunspacePool(object):
             else:
                 raise
 
-        except (_pool_manager.NewConnectionDisabled, TimeoutError, requests.exceptions.ConnectionError):
+        except (
+            _pool_manager.NewConnectionDisabled,
+            TimeoutError,
+            requests.exceptions.Timeout,
+            requests.exceptions.ConnectionError,
+        ):
             # If a timeout or connection error occurs, treat the pool as closed.
             is_closed = True
 
-- 
2.43.0


From af21c0e8c5e3bf045bc4b7a4eeaba86a2887aa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:02 +0000
Subject: [PATCH 14/39] fix: a timed out request always invalidates the
 encryption context

---
 src/pypsrp/wsman.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 0903ce9..7460413 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -888,13 +888,14 @@ class _TransportHTTP(object):
                 )
             except (requests.ReadTimeout, requests.ConnectTimeout) as e:
                 log.exception("%s during WSMan request - attempt %d", type(e).__name__, attempt)
-                if attempt == retries_on_read_timeout:
-                    raise
 
                 # On a failure the encryption state is invalidated and needs to
                 # be recreated after authentication is done.
                 self.encryption = None
 
+                if attempt == retries_on_read_timeout:
+                    raise
+
                 attempt += 1
                 time.sleep(self.reconnection_backoff * (2**attempt - 1))
 
-- 
2.43.0


From 58190f9dbf5fc40ef4175441c62689cd06d7f5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:20 +0000
Subject: [PATCH 15/39] fix: disabling new connections also covers requests
 sent through a proxy

---
 src/pypsrp/_pool_manager.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/pypsrp/_pool_manager.py b/src/pypsrp/_pool_manager.py
index 81c7516..2f5b9e2 100644
--- a/src/pypsrp/_pool_manager.py
+++ b/src/pypsrp/_pool_manager.py
@@ -116,6 +116,23 @@ def _create_connection_pool(pool):
     pool.ConnectionCls = _wrap(pool.ConnectionCls, after=_create_new_connection_with_failure)
 
 
+def _wrap_pool_classes(manager):
+    # pool_classes_by_scheme stores the urllib3 pool types used when creating
+    # the connection pool for http/https. We wrap the __init__ method so we can
+    # inject our custom ConnectionCls that wraps the connect method when
+    # created.
+    # Copy the dict so we only mutate this manager's instance, not the
+    # module-level dict shared by all urllib3 PoolManager instances.
+    if getattr(manager, "_pypsrp_wrapped", False):
+        return
+
+    pool_classes = dict(manager.pool_classes_by_scheme)
+    for scheme, pool_cls in list(pool_classes.items()):
+        pool_classes[scheme] = _wrap(pool_cls, after=_create_connection_pool)
+    manager.pool_classes_by_scheme = pool_classes
+    manager._pypsrp_wrapped = True
+
+
 def create_request_adapter(  # type: ignore[no-any-unimported]  # requests does not have typing stubs for urllib3
     *,
     max_retries: Retry,
@@ -131,15 +148,13 @@ def create_request_adapter(  # type: ignore[no-any-unimported]  # requests does
     else:
         adapter = requests.adapters.HTTPAdapter(max_retries=max_retries)
 
-    # pool_classes_by_scheme stores the urllib3 pool types used when creating
-    # the connection pool for http/https. We wrap the __init__ method so we can
-    # inject our custom ConnectionCls that wraps the connect method when
-    # created.
-    # Copy the dict so we only mutate this adapter's instance, not the
-    # module-level dict shared by all urllib3 PoolManager instances.
-    pool_classes = dict(adapter.poolmanager.pool_classes_by_scheme)
-    for scheme, pool_cls in list(pool_classes.items()):
-        pool_classes[scheme] = _wrap(pool_cls, after=_create_connection_pool)
-    adapter.poolmanager.pool_classes_by_scheme = pool_classes
+    _wrap_pool_classes(adapter.poolmanager)
+
+    # Requests sent through a proxy use their own pool manager which requests
+    # creates on demand for each proxy.
+    adapter.proxy_manager_for = _wrap(  # type: ignore[method-assign] # We want to wrap the bound method
+        adapter.proxy_manager_for,
+        after=_wrap_pool_classes,
+    )
 
     return adapter
-- 
2.43.0


From 83c4076a7197a5bfc591dd61faed38663fe6cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:47 +0000
Subject: [PATCH 16/39] fix: a pool returned by get_runspace_pools is closed
 and queried by its own shell id

---
 src/pypsrp/powershell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 1b00214..31535d5 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -510,6 +510,10 @@ class RunspacePool(object):
             selector_set.add_option("ShellId", shell_id)
             filter.append(selector_set.pack())
 
+            # Requests sent before connecting, like closing the pool or checking
+            # its state, must target this shell.
+            pool.shell._selector_set = selector_set
+
             resp = connection.enumerate("http://schemas.microsoft.com/wbem/wsman/1/windows/shell/Command", enum_msg)
             commands = resp.findall("wsen:EnumerateResponse/wsman:Items/rsp:Command", NAMESPACES)
             pipelines = {}
-- 
2.43.0


From a07f4a12dd63f3f4c08b77104acbe28b9e603021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:06:32 +0000
Subject: [PATCH 17/39] fix: fetch writes every piece of data the server sent

---
 src/pypsrp/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index 273c56e..06cd0df 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -272,7 +272,8 @@ class Client(object):
 
             temp_file, path = tempfile.mkstemp()
             try:
-                file_bytes = base64.b64decode(powershell.output[0])
+                # The last output is the hash, everything before it is the data
+                file_bytes = b"".join(base64.b64decode(data) for data in powershell.output[:-1])
                 os.write(temp_file, file_bytes)
 
                 sha1 = hashlib.sha1()
-- 
2.43.0


From 5fc5ac9900da1ea403e7cc903e48a0587cd706dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:06:32 +0000
Subject: [PATCH 18/39] fix: fetch no longer accepts a partially written file

---
 src/pypsrp/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index 06cd0df..6b06a4e 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -274,7 +274,8 @@ class Client(object):
             try:
                 # The last output is the hash, everything before it is the data
                 file_bytes = b"".join(base64.b64decode(data) for data in powershell.output[:-1])
-                os.write(temp_file, file_bytes)
+                with os.fdopen(temp_file, "wb", closefd=False) as temp_fd:
+                    temp_fd.write(file_bytes)
 
                 sha1 = hashlib.sha1()
                 sha1.update(file_bytes)
-- 
2.43.0


From 8c6c9d7c6bc8ed8f75d4097f2131b14b76fabb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:19:29 +0000
Subject: [PATCH 19/39] fix: a failed HTTP answer with XML that is not a SOAP
 fault stays a transport error

---
 src/pypsrp/wsman.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 7460413..369f0ce 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -498,6 +498,10 @@ class WSMan(object):
             )
         except WinRMTransportError as err:
             try:
+                # An XML document without a fault is just the text of the error
+                if ET.fromstring(err.response_text).find("s:Body/s:Fault", namespaces=NAMESPACES) is None:
+                    raise err
+
                 # try and parse the XML and get the WSManFault
                 raise self._parse_wsman_fault(err.response_text)
             except ET.ParseError:
-- 
2.43.0


From 85ab6b223a55afc2c16a55a7e1be5f517e37ffce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:19:40 +0000
Subject: [PATCH 20/39] fix: a blank WSManFault message does not hide the
 reason of the SOAP fault

---
 src/pypsrp/wsman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 369f0ce..d170fdc 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -658,7 +658,7 @@ class WSMan(object):
             if message_info is not None:
                 # message may still not be set, fall back to the existing
                 # reason value from the base soap Fault element
-                reason = message_info.text or reason
+                reason = (message_info.text or "").strip() or reason
 
             provider_info = wsman_fault.find("wsmanfault:Message/wsmanfault:ProviderFault", namespaces=NAMESPACES)
             if provider_info is not None:
-- 
2.43.0


From 60ce7626f5d656ed8e6707f25ff842e37ea56105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:19:53 +0000
Subject: [PATCH 21/39] fix: the text of a nested provider fault is no longer
 dropped

---
 src/pypsrp/wsman.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index d170fdc..c80ca8a 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -664,7 +664,8 @@ class WSMan(object):
             if provider_info is not None:
                 provider = provider_info.attrib.get("provider")
                 provider_path = provider_info.attrib.get("path")
-                provider_fault = provider_info.text
+                # the details may be nested in another WSManFault
+                provider_fault = "".join(provider_info.itertext())
 
         # lastly try and cleanup the value of the parameters
         try:
-- 
2.43.0


From 5dbb0953bcc8e75cebe5a7d27cfc041ce6e72983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:20:05 +0000
Subject: [PATCH 22/39] fix: a SOAP fault in a successful HTTP answer is raised

---
 src/pypsrp/wsman.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index c80ca8a..30c2d75 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -521,6 +521,10 @@ class WSMan(object):
                 "Received related id does not match related "
                 "expected message id: Sent: %s, Received: %s" % (message_id, relates_to)
             )
+
+        if response_xml.find("s:Body/s:Fault", namespaces=NAMESPACES) is not None:
+            raise self._parse_wsman_fault(to_string(response))
+
         return response_xml
 
     def _calc_envelope_size(
-- 
2.43.0


From 724fe4bc0fd8cb2b8ccd092d5f0410fc96b2a736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:53:29 +0000
Subject: [PATCH 23/39] fix: only the header of an encrypted part is removed
 from its data

---
 src/pypsrp/encryption.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/encryption.py b/src/pypsrp/encryption.py
index 1442a0a..3b31250 100644
--- a/src/pypsrp/encryption.py
+++ b/src/pypsrp/encryption.py
@@ -57,7 +57,8 @@ class WinRMEncryption(object):
             # remove the end MIME block if it exists
             payload = re.sub(to_bytes(r"--\s*%s--\r\n$") % to_bytes(boundary), b"", payload)
 
-            wrapped_data = payload.replace(b"\tContent-Type: application/octet-stream\r\n", b"")
+            # only the header of the part, the data may contain the same bytes
+            wrapped_data = payload.replace(b"\tContent-Type: application/octet-stream\r\n", b"", 1)
             header_length = struct.unpack("<i", wrapped_data[:4])[0]
             header = wrapped_data[4 : 4 + header_length]
             enc_wrapped_data = wrapped_data[4 + header_length :]
-- 
2.43.0


From 8583e544f6083e3a85f011ea1ab60aa250ac40b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:58:43 +0000
Subject: [PATCH 24/39] fix: use the configured authentication provider when
 the server lists another one first

With a specific provider (kerberos or ntlm) and a server that offers both of
them but not Negotiate, the first scheme in our own order was compared with
the configured provider and refused as incompatible although the server
offers the configured one. A server that offers none of the acceptable schemes
is now reported as an AuthenticationError.
---
 src/pypsrp/negotiate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/negotiate.py b/src/pypsrp/negotiate.py
index 784226a..2501e53 100644
--- a/src/pypsrp/negotiate.py
+++ b/src/pypsrp/negotiate.py
@@ -89,7 +89,11 @@ class HTTPNegotiateAuth(AuthBase):
 
     def response_hook(self, response, **kwargs):
         if response.status_code == 401:
-            matched_provider = self._check_auth_supported(response, ["Negotiate", "Kerberos", "NTLM"])
+            providers = ["Negotiate", "Kerberos", "NTLM"]
+            if self.auth_provider != "negotiate":
+                # A specific provider can only be used through its own scheme or Negotiate.
+                providers = [p for p in providers if p.lower() in ["negotiate", self.auth_provider]]
+            matched_provider = self._check_auth_supported(response, providers)
             kwargs["_pypsrp_auth_provider"] = matched_provider
 
             response = self.handle_401(response, **kwargs)
-- 
2.43.0


From 9b6ceae48ad30351fc9cd88e49b814beefd5620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:11:15 +0000
Subject: [PATCH 25/39] fix: an Array with an empty dimension keeps its shape

The number of inner lists was derived from the elements left over, so a
received array without elements always got one inner list, and one whose
first dimension is 0 failed with an IndexError.
---
 src/pypsrp/complex_objects.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index b8ae975..0c86b5c 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -1488,13 +1488,14 @@ class Array(ComplexObject):
         values = []
 
         length = mal.pop(-1)
-        while True:
+        count = 1
+        for size in mal:
+            count *= size
+        for _ in range(count):
             entry = []
             for i in range(0, length):
                 entry.append(mae.pop(0))
             values.append(entry)
-            if len(mae) == 0:
-                break
 
         if len(mal) == 0:
             values = values[0]
-- 
2.43.0


From 9c5558107d3d87d8d8e9120833ec498a1511b28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:11:27 +0000
Subject: [PATCH 26/39] fix: spell the host method GetRunspace (55) as the
 protocol does

---
 src/pypsrp/complex_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 0c86b5c..f138c63 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -1123,7 +1123,7 @@ class HostMethodIdentifier(Enum):
             52: "PushRunspace",
             53: "PopRunspace",
             54: "GetIsRunspacePushed",
-            55: "GetRunspce",
+            55: "GetRunspace",
             56: "PromptForChoiceMultipleSelection",
         }
         super(HostMethodIdentifier, self).__init__(
-- 
2.43.0


From 2ab7408658f0cf3ef3176ec89b1a424482499af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:17:10 +0000
Subject: [PATCH 27/39] fix: serialize DT values

A date was serialized to None, which failed or produced an invalid element
when the value was part of another one.
---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 30408ff..47a888a 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -115,7 +115,7 @@ class Serializer(object):
             "ToString": lambda d: self._serialize_string(d),
             "C": lambda m, d: str(ord(d)),
             "B": lambda m, d: str(d).lower(),
-            "DT": lambda m, d: None,
+            "DT": lambda m, d: str(d),
             "TS": lambda m, d: str(d),
             "By": lambda m, d: str(d),
             "SB": lambda m, d: str(d),
-- 
2.43.0


From acc474d9ffe3978d4eb612ff609c0e20af4cdf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:17:22 +0000
Subject: [PATCH 28/39] fix: integers that do not fit in 32 bits get a tag they
 fit in

Every int was written as an I32, which the server cannot read when the
value needs more than 32 bits.
---
 src/pypsrp/serializer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 47a888a..5b3f419 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -382,7 +382,14 @@ class Serializer(object):
 
         value_type = type(value)
         if value_type == int:
-            return "I32"
+            if -(2**31) <= value < 2**31:
+                return "I32"
+            elif -(2**63) <= value < 2**63:
+                return "I64"
+            elif 0 <= value < 2**64:
+                return "U64"
+            # too large for any integer tag
+            return "D"
         elif value_type == bool:
             return "B"
         elif value_type == float:
-- 
2.43.0


From 126a96c28bc6f8e9e06026ae5235391e7c812d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:45:25 +0000
Subject: [PATCH 29/39] fix: a TNRef can refer to an empty list of type names

---
 src/pypsrp/serializer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 5b3f419..aa779a0 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -821,9 +821,10 @@ class Serializer(object):
     ) -> typing.List[str]:
         obj_types = [e.text or "" for e in element.findall("TN/T")]
 
-        if len(obj_types) > 0:
-            ref_id = element.find("TN").attrib["RefId"]  # type: ignore[union-attr] # Mandated by the spec
-            self.tn[ref_id] = obj_types
+        tn = element.find("TN")
+        if tn is not None:
+            # the list can be empty, a later TNRef still refers to it
+            self.tn[tn.attrib["RefId"]] = obj_types
 
         tn_ref = element.find("TNRef")
         if tn_ref is not None:
-- 
2.43.0


From 4e707bcea1549c9dfb00acd1bb263cf1626fbcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:45:33 +0000
Subject: [PATCH 30/39] fix: keep an empty type name of a dynamic object

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index aa779a0..077298b 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -687,7 +687,7 @@ class Serializer(object):
         for obj_property in element:
             if obj_property.tag == "TN":
                 for obj_type in obj_property:
-                    obj.types.append(obj_type.text)
+                    obj.types.append(obj_type.text or "")
                 self.tn[obj_property.attrib["RefId"]] = obj.types
             elif obj_property.tag == "TNRef":
                 obj.types = self.tn[obj_property.attrib["RefId"]]
-- 
2.43.0


From 7bc099c666de8272618ec5458f61bf91b00ba86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:30:47 +0000
Subject: [PATCH 31/39] fix: an ErrorRecord made by the user can be serialised

---
 src/pypsrp/complex_objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index f138c63..9e27895 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -902,6 +902,9 @@ class ErrorRecord(ComplexObject):
         )
         self.exception = kwargs.get("exception")
         self.target_info = kwargs.get("target_info")
+        self.target_object = kwargs.get("target_object", self.target_info)
+        self.invocation_info = kwargs.get("invocation_info")
+        self.script_stacktrace = kwargs.get("script_stacktrace")
         self.invocation = kwargs.get("invocation")
         self.fq_error = kwargs.get("fq_error")
         self.category = kwargs.get("category")
-- 
2.43.0


From 5c9f43768e6d767c2d8b4200211f29d30c91895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:30:56 +0000
Subject: [PATCH 32/39] fix: the keys of bound parameters and command
 parameters are named Key

---
 src/pypsrp/complex_objects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 9e27895..2549234 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -816,7 +816,7 @@ class ErrorRecord(ComplexObject):
                 DictionaryMeta(
                     name="InvocationInfo_BoundParameters",
                     optional=True,
-                    dict_key_meta=ObjectMeta("S"),
+                    dict_key_meta=ObjectMeta("S", name="Key"),
                     dict_types=[
                         "System.Management.Automation.PSBoundParametersDictionary",
                         "System.Collections.Generic.Dictionary`2[[System.String, "
@@ -954,7 +954,7 @@ class InformationalRecord(ComplexObject):
                 DictionaryMeta(
                     name="InvocationInfo_BoundParameters",
                     optional=True,
-                    dict_key_meta=ObjectMeta("S"),
+                    dict_key_meta=ObjectMeta("S", name="Key"),
                     dict_types=[
                         "System.Management.Automation.PSBoundParametersDictionary",
                         "System.Collections.Generic.Dictionary`2[[System.String, "
@@ -1240,7 +1240,7 @@ class CommandMetadata(ComplexObject):
                 "parameters",
                 DictionaryMeta(
                     name="Parameters",
-                    dict_key_meta=ObjectMeta("S"),
+                    dict_key_meta=ObjectMeta("S", name="Key"),
                     dict_value_meta=ObjectMeta("Obj", object=ParameterMetadata),
                 ),
             ),
-- 
2.43.0


From 34f8a4cc4450246db155604910bef6894dad488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:50:13 +0000
Subject: [PATCH 33/39] fix: a received object is sent again with the tags of
 its own values

---
 src/pypsrp/serializer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 077298b..e44b9d0 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -666,7 +666,7 @@ class Serializer(object):
                         raise SerializationError(err_msg)
                     val = None
                 elif val is not None:
-                    val = self.deserialize(val, property_meta, clear=False)
+                    val = self.deserialize(val, copy(property_meta), clear=False)
 
                 setattr(obj, attr, val)
 
@@ -715,7 +715,8 @@ class Serializer(object):
         element: ET.Element,
         metadata: typing.Optional[ObjectMeta] = None,
     ) -> typing.List:
-        value_meta = getattr(metadata, "list_value_meta", None)
+        # the tag that is resolved by the entries stays within this list
+        value_meta = copy(getattr(metadata, "list_value_meta", None))
 
         list_value = list(self._deserialize_list_values(element, "LST", value_meta=value_meta))
 
-- 
2.43.0


From 32261ee05c2ee970d4dd3236af01563fdabc8809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:35:07 +0000
Subject: [PATCH 34/39] fix: the language tag of a CultureInfo can be
 serialised

The constructor set ieft_language_tag, while ietf_language_tag is what is
serialised: sending a CultureInfo (a host's culture) raised AttributeError.
---
 src/pypsrp/complex_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 2549234..95889ca 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -1622,7 +1622,7 @@ class CultureInfo(ComplexObject):
         self.lcid = kwargs.get("lcid")
         self.name = kwargs.get("name")
         self.display_name = kwargs.get("display_name")
-        self.ieft_language_tag = kwargs.get("ietf_language_tag")
+        self.ietf_language_tag = kwargs.get("ietf_language_tag")
         self.three_letter_iso_name = kwargs.get("three_letter_iso_name")
         self.three_letter_windows_name = kwargs.get("three_letter_windows_name")
         self.two_letter_iso_language_name = kwargs.get("two_letter_iso_language_name")
-- 
2.43.0


From f40874967dec44b57b76fb3408dbfc210e2c2a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:38:38 +0000
Subject: [PATCH 35/39] fix: the parameters of a CommandMetadata keep their
 values and types

The values were written without the name Value, so deserializing lost
them, and the type names were set on types, which is not what
serialization reads, so that a ParameterMetadata could not be told from
its element.
---
 src/pypsrp/complex_objects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 95889ca..a6e4c42 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -1192,7 +1192,7 @@ class CommandMetadataCount(ComplexObject):
             output
         """
         super(CommandMetadataCount, self).__init__()
-        self.types = [
+        self._types = [
             "Selected.Microsoft.PowerShell.Commands.GenericMeasureInfo",
             "System.Management.Automation.PSCustomObject",
             "System.Object",
@@ -1217,7 +1217,7 @@ class CommandMetadata(ComplexObject):
             as Command Parameters
         """
         super(CommandMetadata, self).__init__()
-        self.types = ["System.Management.Automation.PSCustomObject", "System.Object"]
+        self._types = ["System.Management.Automation.PSCustomObject", "System.Object"]
         self._extended_properties = (
             ("name", ObjectMeta("S", name="Name")),
             ("namespace", ObjectMeta("S", name="Namespace")),
@@ -1241,7 +1241,7 @@ class CommandMetadata(ComplexObject):
                 DictionaryMeta(
                     name="Parameters",
                     dict_key_meta=ObjectMeta("S", name="Key"),
-                    dict_value_meta=ObjectMeta("Obj", object=ParameterMetadata),
+                    dict_value_meta=ObjectMeta("Obj", name="Value", object=ParameterMetadata),
                 ),
             ),
         )
@@ -1267,7 +1267,7 @@ class ParameterMetadata(ComplexObject):
             specified in the ArgumentList property
         """
         super(ParameterMetadata, self).__init__()
-        self.types = ["System.Management.Automation.ParameterMetadata", "System.Object"]
+        self._types = ["System.Management.Automation.ParameterMetadata", "System.Object"]
         self._adapted_properties = (
             ("name", ObjectMeta("S", name="Name")),
             ("parameter_type", ObjectMeta("S", name="ParameterType")),
-- 
2.43.0


From cfed20357ae24542dcecd08bf972a8199c7ca7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:39:02 +0000
Subject: [PATCH 36/39] fix: a reference in place of an object property is
 followed

A property whose value is an object was only looked for as <Obj>, so that
a <Ref> to an object of the same document was taken as missing: None for an
optional property and an error for a mandatory one.
---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index e44b9d0..cc42263 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -646,7 +646,7 @@ class Serializer(object):
 
                 tags = [property_meta.tag]
                 # The below tags are actually seen as Obj in the parent element
-                if property_meta.tag in ["DCT", "LST", "IE", "QUE", "STK", "ObjDynamic"]:
+                if property_meta.tag in ["Obj", "DCT", "LST", "IE", "QUE", "STK", "ObjDynamic"]:
                     tags = ["Obj", "Ref"]
 
                 val = None
-- 
2.43.0


From f3fabba80dbd0a9658671048e9ce289a9fee270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:05:33 +0000
Subject: [PATCH 37/39] fix: the STA apartment state of a pipeline is not
 replaced by the pool's

---
 src/pypsrp/powershell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 31535d5..78490e0 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1242,7 +1242,8 @@ class PowerShell(object):
             raise InvalidPSRPOperation("Cannot invoke PowerShell without any commands being set")
 
         no_input = input is None
-        apartment_state = apartment_state or self.runspace_pool.apartment_state
+        if apartment_state is None:
+            apartment_state = self.runspace_pool.apartment_state
         host_info = HostInfo(host=self.runspace_pool.host)
 
         pipeline = Pipeline(
-- 
2.43.0


From 8f7d81352979fcfd14bc6c3e97b2758a4f7f033b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:37 +0000
Subject: [PATCH 38/39] fix: all fragments of the pool's requests are sent, not
 only the first

---
 src/pypsrp/powershell.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 78490e0..89a1371 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -222,8 +222,8 @@ class RunspacePool(object):
         self.ci_table[ci] = response_handler
 
         set_min_runspace = SetMinRunspaces(min_runspaces=min_runspaces, ci=ci)
-        data = self._fragmenter.fragment(set_min_runspace, self.id)[0]
-        self.shell.send("stdin", data)
+        for fragment in self._fragmenter.fragment(set_min_runspace, self.id):
+            self.shell.send("stdin", fragment)
 
         while not isinstance(self.ci_table[ci], bool):
             self._receive()
@@ -263,8 +263,8 @@ class RunspacePool(object):
         self.ci_table[ci] = response_handler
 
         set_max_runspace = SetMaxRunspaces(max_runspaces=max_runspaces, ci=ci)
-        data = self._fragmenter.fragment(set_max_runspace, self.id)[0]
-        self.shell.send("stdin", data)
+        for fragment in self._fragmenter.fragment(set_max_runspace, self.id):
+            self.shell.send("stdin", fragment)
 
         while not isinstance(self.ci_table[ci], bool):
             self._receive()
@@ -330,8 +330,7 @@ class RunspacePool(object):
         rsp = NAMESPACES["rsp"]
         session_capability = SessionCapability(PROTOCOL_VERSION, PS_VERSION, SERIALIZATION_VERSION)
         connect_runspace = ConnectRunspacePool()
-        data = self._fragmenter.fragment(session_capability, self.id)[0]
-        data += self._fragmenter.fragment(connect_runspace, self.id)[0]
+        connect_fragments = self._fragmenter.fragment_multiple([session_capability, connect_runspace], self.id)
 
         connect = ET.Element("{%s}Connect" % rsp)
         selectors = SelectorSet()
@@ -341,7 +340,7 @@ class RunspacePool(object):
         options.add_option("protocolversion", PROTOCOL_VERSION, {"MustComply": "true"})
 
         open_content = ET.SubElement(connect, "connectXml", xmlns="http://schemas.microsoft.com/powershell")
-        open_content.text = base64.b64encode(data).decode("utf-8")
+        open_content.text = base64.b64encode(connect_fragments.pop(0)).decode("utf-8")
 
         response = self.connection.connect(self.shell.resource_uri, connect, options, selectors)
         response_xml = response.find("rsp:ConnectResponse/pwsh:connectResponseXml", NAMESPACES)
@@ -350,6 +349,11 @@ class RunspacePool(object):
         self._parse_responses(fragments)
         self.shell.id = self.id  # need to sync up the ShellID with the rs ID
         self.shell._selector_set = selectors
+
+        # send what did not fit into the connection request
+        for fragment in connect_fragments:
+            self.shell.send("stdin", fragment)
+
         self._receive()
 
     def create_disconnected_power_shells(self) -> typing.List["PowerShell"]:
@@ -398,8 +402,8 @@ class RunspacePool(object):
         self.ci_table[ci] = response_handler
 
         get_runspaces = GetAvailableRunspaces(ci=ci)
-        data = self._fragmenter.fragment(get_runspaces, self.id)[0]
-        self.shell.send("stdin", data)
+        for fragment in self._fragmenter.fragment(get_runspaces, self.id):
+            self.shell.send("stdin", fragment)
 
         avail_runspaces = None
         while avail_runspaces is None:
@@ -649,8 +653,8 @@ class RunspacePool(object):
         self.ci_table[ci] = response_handler
 
         reset_state = ResetRunspaceState(ci=ci)
-        data = self._fragmenter.fragment(reset_state, self.id)[0]
-        self.shell.send("stdin", data)
+        for fragment in self._fragmenter.fragment(reset_state, self.id):
+            self.shell.send("stdin", fragment)
 
         while not isinstance(self.ci_table[ci], bool):
             self._receive()
-- 
2.43.0


From 0ac8d49723e24046dd3567f6bd91e8eb259c8b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 39/39] fix: stop and connect address the command id the server
 gave the pipeline

---
 src/pypsrp/powershell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 89a1371..46e93c9 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1173,7 +1173,7 @@ class PowerShell(object):
             )
         rsp = NAMESPACES["rsp"]
 
-        connect = ET.Element("{%s}Connect" % rsp, CommandId=self.id)
+        connect = ET.Element("{%s}Connect" % rsp, CommandId=self._command_id or self.id)
 
         self.runspace_pool.connection.connect(
             self.runspace_pool.shell.resource_uri, connect, selector_set=self.runspace_pool.shell._selector_set
@@ -1531,7 +1531,7 @@ class PowerShell(object):
             raise InvalidPipelineStateError(self.state, PSInvocationState.RUNNING, "stop a running pipeline")
 
         self.state = PSInvocationState.STOPPING
-        self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, str(self.id).upper())
+        self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, str(self._command_id or self.id).upper())
         self.state = PSInvocationState.STOPPED
         self.runspace_pool.pipelines.pop(self.id, None)
 
-- 
2.43.0

