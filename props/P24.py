from vp.core import Job, Loop, Native, FAULTS
GV = ("G", "h_fd", "h_w", "h_c", "h_o", "h_op", "h_m", "h_n", "lock")
INV = ("G.rw == 1 && !G.fails && fd == h_fd && opcode == h_op && message == h_m && message_length == h_n && G.ent == G.o_ent && (G.ent == (void*)0 || G.ent == h_c) && (client == (void*)0 || client == h_c || client == h_o) && (client == h_o ==> h_o->fd != h_w) && "
       "(client == h_c ==> G.seen) && (G.seen ==> G.o_ent == h_c) && G.sent == (G.seen && client != h_c && h_w != h_fd) && (client != (void*)0 ==> !G.over) && (client == (void*)0 ==> G.over && (G.seen || G.o_ent == (void*)0))")
JOBS = [Job("echo", "subproto.c", "h_echo", enforce="onMessage", defs=["-DECHO"], rmfp=True, functions=["echo.c: onInit, onConnect, onMessage, onWrite, onClose"]),
        Job("broadcast_message", "subproto.c", "h_message", enforce="onMessage", defs=["-DMESSAGE"], rmfp=True, functions=["broadcast.c: onMessage"],
            loops=[Loop("onMessage", INV, "client, tmp, G, h_o->fd", None, locals_=("client", "tmp"), params=("fd", "opcode", "message", "message_length"), globals_=GV, idx=0, nloops=1)]),
        Job("broadcast_connect", "subproto.c", "h_connect", enforce="onConnect", defs=["-DCONNECT"], rmfp=True, functions=["broadcast.c: onConnect, WSS_client_find"]),
        Job("broadcast_close", "subproto.c", "h_close", enforce="onClose", defs=["-DCLOSE"], rmfp=True, functions=["broadcast.c: onClose, WSS_client_find"])]
NATIVE = [Native("subproto.c", [], defs=FAULTS, what="sequences of connections, repeated connections, messages (any bytes, zero bytes and empty ones included, any opcode), departures on up to 40 descriptors, through the real echo.c and broadcast.c with the real hash table; who receives what against a list of who is there")]
TECHNIQUE = "CBMC function and loop contracts (goto-instrument --dfcc) on the callbacks of subprotocols/echo/echo.c and subprotocols/broadcast/broadcast.c over an abstract map with one arbitrary watched session"
NOTE = ("All obligations discharged for every descriptor, opcode, message and any number of connected sessions, and with the callbacks of other sessions run by other threads whenever the lock of the table is not held. The hash table macros (uthash) are represented by their meaning as a map; "
        "that the server calls the callbacks when sessions come and go is not part of it.")
EXPLAIN = ("Echo: one message leads to exactly one send, to the sender, with the same opcode, bytes and length; nothing else sends. Broadcast: for an arbitrary watched session, a message leads to exactly one unchanged send if it is connected and not the sender, and to none otherwise; "
           "connecting puts exactly that session into the table once, leaving takes exactly it out and releases it once, both only under the write lock.")
TRUSTED = ["uthash's macros as a map (the native part uses the real ones)", "pthread read-write locks as stub bodies in contracts/subproto.c", "what a send does (P26)"]
ASSUME = ["the server does not run two callbacks of the same session at the same time", "a message is shorter than 2^40 bytes"]
