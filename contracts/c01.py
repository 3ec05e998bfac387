from contracts.frag import *
