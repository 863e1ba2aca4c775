"""What is explored for which property.  A run is a string:  BINARY SCENARIO [-P n] [-S n] [-E n] [name=value ...]
`Q` runs in the quick tier; the thorough tier runs Q and T (a run listed in T with the same head replaces nothing,
it is simply explored as well, deeper)."""

# binary -> (harness sources, instrumented sources)
BIN = {
    "containers": (["containers.c"], []),
    "stack": (["stack.c"], ["cut_stack.c"]),
    "srv": (["srv.c"], ["cut_handlers.c"]),
    "pkt": (["pkt.c"], ["cut_handlers.c"]),
    "frame": (["frame.c"], ["cut_handlers.c"]),
    "cli": (["cli.c"], ["cut_client.c"]),
    "rwlock": (["rwlock.c"], ["cut_rwlock.c"]),
    "wide": (["wide.c"], ["cut_handlers.c"]),
    "cliwide": (["cliwide.c"], ["cut_client.c"]),
    "fault": (["fault.c"], ["cut_handlers.c"]),
    "fclient": (["fclient.c"], ["cut_client.c"]),
    "e2e": (["e2e.c"], ["cut_e2e.c"], "e2e.gr"),
}

CONNECT, REQ, UNKNOWN, SUB, BCAST, TARGET, CLOSE, RESET, DEFER, BURST, PART, REG, REQCLOSE, SELF, APIBCAST, NEST, ALLPROTO, HREG = (1 << i for i in range(18))


def seq(ops, **kw):
    return "srv srv_seq -P 0 ops=%d %s" % (ops, " ".join("%s=%s" % i for i in kw.items()))


# actions of the client scenarios
K_CALL, K_ACALL, K_RESP, K_DUP, K_UNSOL, K_ERR, K_ERRX, K_EVENT, K_EVUNK, K_ODD, K_WAITNB, K_WAITNBC, K_WAIT, K_WAITC, K_AWAIT, K_RESULT, K_CLOSE, K_REG, K_PART, K_ASYNC = (1 << i for i in range(20))
K_ALL = (1 << 20) - 1
AWAIT, WAITC, ASYNC, ALL2, ANY2, ASYNCALL2, ASYNCANY2, PUMP, NBAWAIT = range(9)


def cseq(ops, **kw):
    return "cli cli_seq -P 0 ops=%d %s" % (ops, " ".join("%s=%s" % i for i in kw.items()))


def cmt(modes, P=1, S=0, **kw):
    modes = list(modes) + [9] * (4 - len(modes))
    return "cli cli_mt -P %d -S %d %s %s" % (P, S, " ".join("m%d=%d" % i for i in enumerate(modes)), " ".join("%s=%s" % i for i in kw.items()))


P = {}
P["C01"] = dict(
    Q=[cseq(K_ALL, depth=3, calls=3), cseq(K_CALL | K_RESP | K_DUP | K_UNSOL | K_WAITNB | K_RESULT, depth=5, calls=3), cseq(K_CALL | K_RESP | K_ERR | K_ERRX | K_WAITNBC | K_RESULT, depth=5, calls=2),
       cseq(K_RESP | K_WAITC | K_RESULT | K_DUP, depth=5, init=3, calls=3), cseq(K_CALL | K_ACALL | K_RESP | K_AWAIT | K_RESULT, depth=4, init=1, calls=4), cseq(K_PART | K_WAITNB | K_WAITC | K_RESULT | K_EVENT, depth=5, init=2),
       cmt([AWAIT, AWAIT], 2), cmt([WAITC, WAITC], 2, dups=1), cmt([AWAIT, WAITC, PUMP], 1), cmt([AWAIT, AWAIT, AWAIT], 1), cmt([ASYNC, ASYNC, PUMP], 1, dups=1, errs=1), cmt([NBAWAIT, WAITC], 2, eager=1), cmt([ALL2, ANY2], 1, errs=1),
       cmt([AWAIT, ASYNC, PUMP], 1, part=1), "cli cli_sendmix -P 2", "cli cli_sendmix -P 2 threads=3", "cli cli_many -P 0", "cli cli_many -P 0 huge=1"],
    T=[cseq(K_ALL, depth=4, calls=3), cseq(K_CALL | K_RESP | K_DUP | K_UNSOL | K_WAITNB | K_RESULT, depth=7, calls=3), cseq(K_CALL | K_RESP | K_ERR | K_ERRX | K_WAITNBC | K_RESULT, depth=7, calls=3),
       cmt([AWAIT, AWAIT, AWAIT], 2), cmt([AWAIT, AWAIT], 4), cmt([ASYNC, ASYNC, PUMP], 2, dups=1), cmt([ALL2, ANY2], 2, errs=1)])
P["C02"] = dict(
    Q=[cseq(K_CALL | K_RESP | K_ERR | K_EVENT | K_AWAIT | K_RESULT, depth=4, init=2, calls=3), cseq(K_RESP | K_AWAIT | K_ASYNC | K_WAITNB, depth=4, init=3, calls=3), cseq(K_RESP | K_ERR | K_ASYNC | K_WAIT | K_EVENT | K_EVUNK, depth=4, init=2),
       cseq(K_RESP | K_DUP | K_UNSOL | K_ERRX | K_EVUNK | K_ODD | K_AWAIT | K_ASYNC, depth=4, init=2), cseq(K_RESP | K_WAITC | K_ASYNC | K_EVENT, depth=5, init=2),
       cmt([AWAIT, AWAIT], 2, S=1), cmt([ASYNC, PUMP], 2, S=1), cmt([ASYNCALL2, PUMP], 2), cmt([ASYNCANY2, PUMP], 2), cmt([ASYNCALL2, PUMP], 1, S=1, errs=1, events=2), cmt([ASYNCALL2, ASYNCANY2, PUMP], 1), cmt([ALL2, ANY2], 1), cmt([ALL2, ASYNC, PUMP], 1), cmt([ASYNC, WAITC, PUMP], 1, S=1),
       cmt([ANY2, ANY2], 1, errs=1), cmt([AWAIT, AWAIT, AWAIT], 1), cmt([ASYNCANY2, WAITC, PUMP], 1)],
    T=[cseq(K_CALL | K_RESP | K_ERR | K_EVENT | K_AWAIT | K_ASYNC | K_WAITNB | K_RESULT, depth=5, init=2, calls=3), cmt([ASYNCALL2, ASYNCANY2, PUMP], 2), cmt([ASYNCALL2, PUMP], 2, S=1, errs=1, events=2), cmt([ALL2, ANY2], 2), cmt([AWAIT, AWAIT, AWAIT], 2, S=1), cmt([ASYNC, ASYNC, PUMP], 3)])
P["C03"] = dict(
    Q=["cli cli_cutend -P 0 stream=%d" % v for v in range(4)]
      + [cseq(K_CALL | K_RESP | K_CLOSE | K_WAIT | K_WAITC | K_AWAIT | K_ASYNC | K_WAITNB, depth=4, init=1), cseq(K_CLOSE | K_PART | K_WAITC | K_AWAIT | K_WAITNB | K_WAITNBC | K_RESULT, depth=5, init=1), cseq(K_CLOSE | K_CALL | K_ACALL | K_WAITNB | K_EVENT, depth=5),
         cmt([AWAIT, AWAIT], 2, close=1), cmt([ASYNC, PUMP], 2, close=1, S=1), cmt([WAITC, ASYNC, PUMP], 1, close=1), cmt([ASYNCALL2, PUMP], 1, close=1), cmt([ALL2, AWAIT], 1, close=1), cmt([ASYNCANY2, PUMP], 1, close=1), cmt([ANY2, WAITC], 1, close=1), cmt([AWAIT, ASYNC, PUMP], 1, close=1), cmt([ASYNC, ASYNC, PUMP], 1, close=1),
         "cli cli_mal -P 0", "cli cli_sendend -P 0", "cli cli_life -P 0", "cli cli_wait_nb -P 0", "cli cli_wait_nb -P 2"],
    T=[cmt([AWAIT, AWAIT], 3, close=1, S=1), cmt([AWAIT, ASYNC, PUMP], 2, close=1), cmt([ALL2, ASYNCALL2, PUMP], 1, close=1), cmt([ASYNCANY2, PUMP], 2, close=1, S=1), cseq(K_CALL | K_RESP | K_CLOSE | K_WAIT | K_WAITC | K_AWAIT | K_ASYNC | K_WAITNB | K_PART | K_EVENT, depth=5, init=1)])
P["C09"] = dict(
    Q=["cli cli_mal -P 0", "cli cli_mal -P 0 maxmsg=128", "cli cli_pkt -P 0 dom=0", "cli cli_pkt -P 0 dom=1", "cli cli_pkt -P 0 dom=2", cseq(K_CALL | K_UNSOL | K_ERRX | K_EVUNK | K_ODD | K_DUP | K_RESP | K_WAITNB, depth=4, init=1), "cli cli_maldg -P 0", "cli cli_short -P 0 -E 1"],
    T=["cli cli_mal -P 0 maxmsg=0", "cli cli_pkt -P 0 dom=0 depth=4", "cli cli_pkt -P 0 dom=1 depth=4"])
P["C20"] = dict(
    Q=["cli cli_mem -P 0", "cli cli_mem -P 0 ops=%d depth=4" % (K_CALL | K_RESP | K_ERR | K_WAITNB | K_WAITC | K_RESULT | K_PART), "cli cli_mem -P 0 ops=%d depth=3 rbuf=1000" % (K_CALL | K_RESP | K_AWAIT | K_WAITC | K_RESULT | K_EVENT | K_DUP | K_ODD), "cli cli_full -P 0", "cli cli_full -P 0 rbuf=330 total=7"],
    T=["cli cli_mem -P 0 depth=5", "cli cli_mem -P 0 ops=%d depth=6" % (K_CALL | K_RESP | K_ERR | K_WAITNB | K_RESULT | K_PART), "cli cli_full -P 0 total=9 rbuf=400"])
P["C25"] = dict(
    Q=[cseq(K_EVENT | K_EVUNK | K_WAITNB | K_WAIT, depth=5), cseq(K_CALL | K_EVENT | K_EVUNK | K_RESP | K_AWAIT | K_WAITC, depth=4, init=1), cseq(K_EVENT | K_REG | K_WAITNB | K_WAITNBC, depth=5, init=1), cseq(K_EVENT | K_RESP | K_ASYNC | K_WAIT, depth=5, init=1),
       "cli cli_cut -P 0 stream=0", "cli cli_cut -P 0 stream=2", "cli cli_cut -P 0 stream=3 cuts=1", cmt([AWAIT], 2, events=2), cmt([ASYNC, PUMP], 2, events=2), cmt([AWAIT, AWAIT], 1, events=2), cmt([WAITC, PUMP], 2, events=1), "cli cli_regs -P 0", "cli cli_pkt -P 0 dom=1", cmt([ALL2], 2, events=2)],
    T=[cseq(K_EVENT | K_EVUNK | K_WAITNB | K_WAIT | K_CALL | K_RESP | K_AWAIT, depth=5), cseq(K_EVENT | K_REG | K_WAITNB | K_WAITNBC | K_RESP, depth=6, init=1), cmt([AWAIT, AWAIT, PUMP], 1, events=2), cmt([ASYNC, PUMP], 3, events=2, S=1)])
P["C04"] = dict(
    Q=[seq(REQ | UNKNOWN | BURST, depth=4, init=1, workers=w) for w in (0, 1, 2)]
      + [seq(CONNECT | REQ | UNKNOWN | CLOSE, depth=4, workers=w) for w in (0, 2)]
      + [seq(REQ | BURST | UNKNOWN | PART, depth=3, init=2, workers=0), seq(REQ | BURST | ALLPROTO, depth=3, init=2, protos=7, workers=3),
         "srv mt_dispatch -P 1 -S 1", "srv mt_mixed -P 1 -S 1", "srv mt_dispatch -P 1 workers=3 per=1", "frame mal_hdr -P 0",
       "srv srv_regs -P 0"],
    T=[seq(REQ | UNKNOWN | BURST | PART | CLOSE | CONNECT, depth=4, init=1, workers=w) for w in (0, 1, 2, 3)]
      + [seq(REQ | UNKNOWN | BURST, depth=4, init=2, workers=2, paylen=100), "srv mt_mixed -P 2 -S 1", "srv mt_dispatch -P 2 -S 1"])
P["C05"] = dict(
    Q=["srv mt_dispatch -P 1 -S 1", "srv mt_dispatch -P 1 -S 1 workers=3 per=1", "srv mt_dispatch -P 2 per=1", "srv mt_dispatch -P 1 -S 1 per=3 peers=1",
       "srv mt_mixed -P 1 -S 1", "srv mt_burst -P 0", "srv mt_burst -P 0 workers=3 burst=110", "srv mt_burst -P 0 workers=1", "frame exhaust_sched -P 1"],
    T=["srv mt_dispatch -P 2 -S 1", "srv mt_mixed -P 2 -S 1", "srv mt_dispatch -P 2 -S 2 per=1", "srv mt_dispatch -P 3 per=1 again=0", "srv mt_dispatch -P 2 workers=3 per=1", "srv mt_burst -P 1 quiet=0 burst=67"])
P["C07"] = dict(
    Q=["frame frame_cut -P 0 cuts=2 stream=%d" % s for s in (0, 1, 2)] + ["frame frame_cut -P 0 cuts=1 stream=3", "frame frame_cut -P 0 cuts=1 stream=0 workers=2",
       "frame frame_end -P 0 stream=0", "frame frame_end -P 0 stream=1", "frame frame_end -P 0 stream=2 workers=2", "frame frame_send -P 0", "frame frame_send -P 0 workers=2",
       "frame frame_short -P 0 -E 2 mask=7", "frame frame_short -P 0 -E 1 workers=2", "srv mt_sendmix -P 1",
       *["cli cli_cut -P 0 stream=%d" % v for v in range(4)], *["cli cli_cutend -P 0 stream=%d" % v for v in range(4)], "cli cli_short -P 0 -E 2", "cli cli_send -P 0", "cli cli_sendmix -P 2", "cli cli_sendmix -P 2 cap=1", "cli cli_sendmix -P 1 threads=3 cap=20"],
    T=[*["cli cli_cut -P 0 cuts=3 stream=%d" % v for v in range(3)], "cli cli_short -P 0 -E 3"] + ["frame frame_cut -P 0 cuts=3 stream=%d" % s for s in (0, 1)] + ["frame frame_cut -P 0 cuts=2 stream=3", "frame frame_cut -P 0 cuts=2 stream=2 workers=2",
       "frame frame_end -P 0 stream=3", "frame frame_short -P 0 -E 3 mask=7", "srv mt_sendmix -P 2"])
P["C08"] = dict(
    Q=["frame mal_len -P 0", "frame mal_len -P 0 workers=2", "frame mal_hdr -P 0", "frame mal_hdr -P 0 workers=2", "frame mal_ctl -P 0", "frame mal_ctl -P 0 workers=2",
       "pkt pkt_seq -P 0 ops=%d depth=3" % (64 | 1), "pkt pkt_seq -P 0 ops=%d depth=2 workers=2" % (64 | 1), "frame frame_end -P 0 stream=1"],
    T=["frame mal_len -P 0 maxmsg=0", "frame mal_len -P 0 maxmsg=0 workers=2", "pkt pkt_seq -P 0 ops=%d depth=4 mixed=1" % (64 | 1 | 4), "pkt pkt_seq -P 0 ops=%d depth=3 dom=1 workers=3" % (64 | 1)])
P["C10"] = dict(
    Q=["containers arena_small -P 0", "containers arena_tight -P 0", "containers arena_odd -P 0", "containers arena_server -P 0", "containers arena_client -P 0",
       "containers arena_sizes -P 0", "containers arena_mt -P 2", "containers arena_small -P 0 depth=7", "containers arena_odd -P 0 depth=6", "containers arena_client -P 0 depth=8"],
    T=["containers arena_small -P 0 depth=9", "containers arena_tight -P 0 depth=9", "containers arena_odd -P 0 depth=8", "containers arena_server -P 0 depth=10", "containers arena_client -P 0 depth=10",
       "containers arena_sizes -P 0 size=4096", "containers arena_mt -P 4"])
P["C11"] = dict(
    Q=["stack stack_seq -P 0", "stack stack_mt -P 2 -S 1", "stack stack_mt -P 2 rounds=2", "stack stack_mt -P 2 width=2", "stack stack_mt -P 2 threads=3", "stack stack_mt -P 2 width=3 prefill=0",
       seq(REQ | BCAST | NEST | SELF | TARGET | CLOSE | UNKNOWN, depth=3, init=2, stop=1), seq(REQ | REQCLOSE | CONNECT | BCAST, depth=4, init=1, workers=2, stop=1),
       "srv mt_events -P 1", "srv mt_close -P 1", "srv mt_dispatch -P 1",
       "srv mt_close -P 1 held=1", "srv mt_events -P 1 held=1"],
    T=["stack stack_seq -P 0 depth=18", "stack stack_mt -P 3 threads=3", "stack stack_mt -P 4 rounds=2", "stack stack_mt -P 3 width=3 prefill=0", "srv mt_events -P 2", "srv mt_close -P 2 -S 1",
       seq(REQ | REQCLOSE | CONNECT | BCAST | NEST | SELF | TARGET, depth=4, init=1, stop=1)])
P["C12"] = dict(
    Q=[seq(SUB | APIBCAST, depth=3, init=2), seq(SUB | APIBCAST | ALLPROTO, depth=2, init=1, protos=7), seq(CONNECT | SUB | APIBCAST | CLOSE, depth=4, init=1),
       seq(SUB | BCAST | NEST | SELF | TARGET, depth=3, init=2), seq(CONNECT | CLOSE | RESET | TARGET | APIBCAST, depth=4, init=1, peers=3), seq(SUB | BCAST | TARGET, depth=3, init=2, workers=2),
       seq(SUB | APIBCAST | TARGET, depth=3, init=3, peers=3), "srv mt_events -P 1", "frame mal_ctl -P 0",
       "srv srv_subs -P 0", "srv mt_events -P 2 held=1", "srv mt_clients -P 1"],
    T=[seq(SUB | APIBCAST, depth=5, init=2), seq(SUB | APIBCAST | ALLPROTO, depth=3, init=1, protos=7), seq(CONNECT | SUB | APIBCAST | CLOSE | TARGET, depth=5, init=1), seq(SUB | APIBCAST | TARGET, depth=4, init=3, peers=3),
       seq(SUB | BCAST | NEST | SELF | TARGET | CLOSE, depth=4, init=2, workers=2), "srv mt_events -P 2 -S 1"])
P["C13"] = dict(
    Q=[seq(CONNECT | CLOSE | RESET | REQ, depth=4, init=1, peers=3), seq(CONNECT | CLOSE | RESET | REQCLOSE | REQ, depth=3, init=2, peers=3, workers=2), seq(CONNECT | CLOSE | REQCLOSE | BCAST | TARGET, depth=4, init=1),
       seq(CONNECT | CLOSE | RESET | PART, depth=4, init=1), seq(SUB | CLOSE | CONNECT, depth=4, init=1), seq(REQCLOSE | CLOSE | REQ, depth=3, init=3, peers=3, nowait=1), seq(CONNECT | CLOSE | RESET | REQ, depth=3, init=2, workers=2, nowait=1),
       "srv mt_close -P 1 -S 1", "srv mt_reuse -P 1", "frame frame_end -P 0 stream=0", "frame frame_end -P 0 stream=0 workers=2",
       "srv mt_close -P 2 held=1", "srv mt_clients -P 2"],
    T=["srv mt_close -P 2 -S 1", "srv mt_reuse -P 2", seq(CONNECT | CLOSE | RESET | REQ | REQCLOSE | BCAST, depth=4, init=2, peers=3), seq(CONNECT | CLOSE | RESET | REQCLOSE | REQ | PART, depth=4, init=2, peers=3, workers=2),
       seq(CONNECT | CLOSE | RESET | REQ, depth=6, init=1, peers=4), seq(SUB | CLOSE | CONNECT | BCAST, depth=5, init=1), "frame frame_end -P 0 stream=3 workers=2"])
P["C14"] = dict(
    Q=[seq(DEFER | REQ, depth=4, init=2), seq(DEFER | REQ | CLOSE | CONNECT, depth=5, init=1), seq(DEFER | BURST, depth=4, init=2, workers=2), seq(DEFER | CLOSE | CONNECT | REQ, depth=4, init=1, workers=2, stop=1),
       "srv mt_defer -P 1", "srv mt_defer -P 1 workers=0", "srv mt_reuse -P 1", "pkt pkt_seq -P 0 ops=%d depth=4" % (128 | 1), "pkt pkt_seq -P 0 ops=%d depth=4 dom=1" % (128 | 1 | 4), "pkt pkt_seq -P 0 ops=%d depth=3 workers=2" % (128 | 1),
       "srv mt_clients -P 1"],
    T=[seq(DEFER | REQ | CLOSE | CONNECT, depth=6, init=1), seq(DEFER | REQ, depth=6, init=2), seq(DEFER | BURST | CLOSE | CONNECT, depth=5, init=2, workers=2), "srv mt_defer -P 2", "srv mt_reuse -P 2", "pkt pkt_seq -P 0 ops=%d depth=5 mixed=1" % (128 | 1)])
P["C15"] = dict(
    Q=["containers ht_seq -P 0 hash=%d depth=7" % h for h in range(8)] + ["containers ht_seq -P 0 hash=%d keys=3 prefill=%d depth=5" % (h, p) for h in (0, 1, 2, 6, 7) for p in (3, 11, 12, 14, 15)]
      + ["containers ht_seq -P 0 hash=%d keys=3 prefill=%d upto=%d depth=5" % (h, p, u) for h in (0, 2, 5, 6, 7) for p, u in ((2, 14), (5, 26), (7, 26), (12, 26), (13, 50))] + ["containers ht_growshrink -P 0", "containers ht_wide -P 0"],
    T=["containers ht_seq -P 0 hash=%d keys=5 depth=9" % h for h in range(8)] + ["containers ht_seq -P 0 hash=%d keys=4 prefill=%d depth=7" % (h, p) for h in range(8) for p in (3, 9, 10, 11, 12, 22, 24)])
P["C16"] = dict(
    Q=["rwlock rw_mt -P 3", "rwlock rw_mt -P 2 -S 1", "rwlock rw_mt -P 2 scripts=7", "rwlock rw_mt -P 2 threads=4", "rwlock rw_meet -P 3", "rwlock rw_meet -P 3 readers=3",
       "srv mt_reg -P 1", "srv mt_reg -P 1 prefill=9", "srv mt_reg2 -P 2", "srv mt_reg2 -P 2 prefill=9", "srv mt_clients -P 2", "srv mt_clients -P 1 peers=12", "srv mt_clients -P 1 peers=4", "srv mt_close -P 2 held=1", "srv mt_events -P 2 held=1", "srv mt_defer -P 1"],
    T=["rwlock rw_mt -P 3 scripts=7", "rwlock rw_mt -P 4", "rwlock rw_mt -P 2 threads=4 -S 1", "rwlock rw_mt -P 2 threads=4 scripts=7", "rwlock rw_mt -P 2 threads=5", "srv mt_reg -P 2", "srv mt_reg2 -P 3", "srv mt_clients -P 3", "srv mt_close -P 3 held=1", "srv mt_events -P 3 held=1"])
P["C17"] = dict(
    Q=["frame stop_handler -P 1 -S 1 other=0 more=1", "frame stop_handler -P 0", "frame stop_handler -P 0 workers=0", "frame stop_handler -P 0 workers=3", "frame stop_thread -P 1 workers=2", "frame stop_thread -P 1 workers=0", "frame stop_own -P 0",
       seq(CONNECT | REQ | CLOSE | SUB, depth=3, stop=1), seq(CONNECT | REQ | REQCLOSE | PART, depth=3, stop=1, workers=2), seq(REQ | BURST | BCAST | DEFER, depth=3, init=2, stop=1, workers=2),
       "pkt pkt_seq -P 0 ops=%d depth=3 stop=1" % (1 | 4 | 8), "pkt pkt_seq -P 0 ops=%d depth=3 stop=1 workers=2" % (1 | 4 | 128), "frame mal_len -P 0",
       "cli cli_life -P 0", cseq(K_CALL | K_RESP | K_EVENT | K_WAITNB | K_RESULT | K_PART | K_CLOSE | K_ACALL, depth=4, init=1, abrupt=1)],
    T=[cseq(K_CALL | K_RESP | K_EVENT | K_ERR | K_WAITNB | K_RESULT | K_PART | K_CLOSE | K_ACALL, depth=5, init=1, abrupt=1), "frame stop_handler -P 1 -S 1", "frame stop_handler -P 2 other=0 more=1", "frame stop_thread -P 2 workers=2", "frame stop_handler -P 1 workers=3 other=0", seq(CONNECT | REQ | CLOSE | SUB | BURST | DEFER, depth=4, stop=1, workers=2), seq(CONNECT | REQ | CLOSE | RESET | SUB, depth=5, stop=1)])
P["C19"] = dict(
    Q=["pkt pkt_seq -P 0 ops=%d depth=3 dom=%d" % (1 | 2 | 4 | 8 | 16 | 32, d) for d in (0, 1, 2)] + ["pkt pkt_seq -P 0 ops=%d depth=3 workers=2" % (1 | 2 | 4 | 8 | 16 | 32), "pkt pkt_seq -P 0 ops=%d depth=4" % (1 | 4 | 512), "pkt pkt_seq -P 0 ops=%d depth=3 mixed=1 peers=3" % (1 | 4 | 8 | 16),
       "pkt pkt_seq -P 0 ops=%d depth=3" % (1 | 4 | 256 | 512), "pkt pkt_seq -P 0 ops=%d depth=3 links=2" % (1 | 4 | 16 | 512), "pkt pkt_seq -P 0 ops=%d depth=3 dom=1" % (64 | 1 | 4),
       *["cli cli_pkt -P 0 dom=%d" % d for d in (0, 1, 2)]],
    T=[*["cli cli_pkt -P 0 depth=4 dom=%d" % d for d in (0, 1, 2)]] + ["pkt pkt_seq -P 0 ops=%d depth=4 dom=%d" % (1 | 2 | 4 | 8 | 16 | 32, d) for d in (0, 1)] + ["pkt pkt_seq -P 0 ops=%d depth=4 workers=2" % (1 | 4 | 8 | 16), "pkt pkt_seq -P 0 ops=%d depth=4 mixed=1 peers=3" % (1 | 4 | 8 | 16), "pkt pkt_seq -P 0 ops=%d depth=5" % (1 | 4 | 512)])
P["C21"] = dict(
    Q=["containers queue_seq -P 0 cap=%d depth=14 fill=%d" % (c, f) for c in (1, 2, 3, 4, 7) for f in (0, 3)] + ["containers queue_seq -P 0 cap=32 depth=12 fill=30", "containers queue_wrap -P 0", "containers queue_wrap -P 0 cap=3 depth=12", "containers queue_wrap -P 0 cap=1"],
    T=["containers queue_seq -P 0 cap=%d depth=20 fill=%d" % (c, f) for c in (1, 2, 3, 4, 5, 7, 8, 16) for f in (0, 5)] + ["containers queue_wrap -P 0 cap=%d depth=16" % c for c in (2, 3, 5, 31, 32, 33)])
P["C23"] = dict(
    Q=[seq(REG | REQ, depth=4, init=1), seq(REG | REQ, depth=4, init=1, protos=0), seq(REG | REQ | ALLPROTO, depth=3, init=1, protos=0), seq(REG | REQ, depth=3, init=1, workers=2), seq(REG | BCAST | SUB, depth=3, init=1),
       "cli cli_regs -P 0", cseq(K_REG | K_EVENT | K_WAITNB, depth=6), cseq(K_REG | K_EVENT | K_WAITNB, depth=5, protos=0),
       "srv srv_regs -P 0", "srv srv_regs -P 0 workers=2", "srv mt_reg -P 1", "srv mt_reg2 -P 2"],
    T=[cseq(K_REG | K_EVENT | K_WAITNB | K_WAIT, depth=7), seq(REG | REQ, depth=5, init=1), seq(REG | REQ | ALLPROTO, depth=4, init=1, protos=0), seq(REG | REQ | UNKNOWN, depth=5, init=1, workers=2)])
P["C24"] = dict(
    Q=["frame exhaust -P 0", "frame exhaust -P 0 workers=3 burst=105", "frame exhaust_leave -P 0", "frame exhaust_sched -P 1", "srv mt_burst -P 0",
       "cli cli_full -P 0", "cli cli_full -P 0 rbuf=330 total=7", "cli cli_mem -P 0 depth=3"],
    T=["cli cli_full -P 0 total=9 rbuf=400", "frame exhaust_sched -P 2", "frame exhaust -P 0 n=6000", "frame exhaust -P 0 n=9000 workers=3"])

# the far ends of sizes, ids, numbers of clients, messages and links
WIDE = {
    "C01": ["cliwide cli_long -P 0", "cliwide cli_big -P 0"],
    "C02": ["cliwide cli_long -P 0", "cliwide cli_big -P 0 maxmsg=300"],
    "C04": ["wide wide_crowd -P 0 huge=1", "wide wide_big -P 0", "wide wide_ids -P 0", "wide wide_ids -P 0 workers=2", "wide wide_long -P 0 batches=3400", "wide wide_long -P 0 batches=400 workers=2", "wide wide_crowd -P 0", "wide wide_links -P 0"],
    "C05": ["wide wide_crowd -P 0 huge=1 workers=2", "wide wide_bursts -P 0 workers=9", "wide wide_long -P 0 workers=9 batches=30"] + ["wide wide_long -P 0 workers=%d" % w for w in (2, 3)] + ["wide wide_crowd -P 0 workers=%d" % w for w in (2, 3)] + ["wide wide_churn -P 0 workers=2"],
    "C07": ["wide wide_big -P 0", "wide wide_big -P 0 workers=2 maxmsg=300", "cliwide cli_big -P 0", "cliwide cli_big -P 0 maxmsg=300"],
    "C08": ["wide wide_big -P 0 maxmsg=%d" % m for m in (300, 5000)],
    "C09": ["cliwide cli_big -P 0", "cliwide cli_big -P 0 maxmsg=300"],
    "C11": ["wide wide_long -P 0 batches=400", "wide wide_long -P 0 workers=2", "wide wide_churn -P 0", "wide wide_crowd -P 0 workers=2"],
    "C12": ["wide wide_crowd -P 0 huge=1", "wide wide_crowd -P 0", "wide wide_crowd -P 0 workers=2", "wide wide_links -P 0", "wide wide_links -P 0 odd=1 workers=2", "wide wide_churn -P 0", "wide wide_big -P 0 maxmsg=300"],
    "C13": ["wide wide_crowd -P 0 huge=1", "wide wide_crowd -P 0 huge=1 workers=2", "wide wide_crowd -P 0", "wide wide_crowd -P 0 workers=2", "wide wide_churn -P 0 rounds=110", "wide wide_churn -P 0 workers=2", "wide wide_links -P 0 workers=2"],
    "C14": ["wide wide_late -P 0", "wide wide_late -P 0 to=30", "wide wide_late -P 0 workers=2", "wide wide_ids -P 0", "wide wide_ids -P 0 workers=2", "wide wide_long -P 0", "wide wide_links -P 0", "wide wide_links -P 0 workers=2"],
    "C17": ["wide wide_crowd -P 0 workers=12", "wide wide_crowd -P 0", "wide wide_crowd -P 0 workers=2", "wide wide_links -P 0", "wide wide_links -P 0 workers=2 odd=1", "wide wide_churn -P 0 workers=2"],
    "C19": ["wide wide_links -P 0 odd=%d workers=%d" % (o, w) for o in (0, 1) for w in (0, 2)] + ["cliwide cli_big -P 0 maxmsg=300"],
    "C20": ["cliwide cli_long -P 0", "cliwide cli_long -P 0 rbuf=6000"],
    "C24": ["wide wide_long -P 0 batches=400", "cliwide cli_long -P 0"],
    "C25": ["cliwide cli_long -P 0", "cliwide cli_big -P 0"],
}
for _k in ("C01", "C02", "C03", "C25"):
    WIDE[_k] = WIDE.get(_k, []) + ["cliwide cli_nested -P 1", "cliwide cli_nested -P 2 two=1"]
for _k in ("C04", "C08", "C11", "C14", "C19", "C24"):
    WIDE[_k] = WIDE[_k] + ["pkt pkt_addr -P 0", "pkt pkt_long -P 0 dom=1", "pkt pkt_long -P 0 workers=2", "pkt pkt_long -P 0 workers=3 batches=110"][:4 if _k in ("C19", "C24") else 3]
WIDE["C08"] += ["wide wide_churn -P 0 workers=2", "wide wide_churn -P 0"]
WIDE["C24"] += ["wide wide_churn -P 0 workers=2", "wide wide_long -P 0 workers=2"]
WIDE["C04"] += ["srv srv_funcs -P 0", "srv srv_funcs -P 0 workers=2"]
WIDE["C08"] += ["wide wide_crowd -P 0"]
WIDE["C23"] = ["srv srv_fmany -P 0", "srv srv_fmany -P 0 workers=2", "cli cli_fmany -P 0", "srv srv_funcs -P 0", "srv srv_funcs -P 0 workers=2", "cli cli_funcs -P 0", seq(HREG | REQ, depth=4, init=1, protos=3), seq(HREG | REQ, depth=3, init=2, protos=3, workers=2), seq(HREG | REG | REQ, depth=3, init=1)]
WIDE["C25"] += ["cli cli_funcs -P 0"]
WIDE["C16"] = [seq(HREG | REQ, depth=3, init=2, protos=3), seq(HREG | REQ, depth=3, init=2, protos=3, workers=2)]
WIDE["C12"] += [seq(CONNECT | CLOSE | RESET | SUB | APIBCAST, depth=3, init=1, peers=3, cb=1), seq(CONNECT | CLOSE | SUB, depth=3, init=1, peers=3, cb=1, workers=2), "pkt pkt_seq -P 0 ops=%d depth=3 cb=1" % (1 | 4 | 512)]
WIDE["C13"] += [seq(CONNECT | CLOSE | RESET | REQ, depth=4, init=1, peers=3, cb=1), seq(CONNECT | CLOSE | RESET | REQCLOSE, depth=3, init=2, peers=3, workers=2, cb=1), "pkt pkt_seq -P 0 ops=%d depth=4 cb=1" % (1 | 4 | 512), "pkt pkt_seq -P 0 ops=%d depth=3 cb=1 workers=2" % (1 | 4 | 512)]
WIDE["C19"] += ["pkt pkt_seq -P 0 ops=%d depth=3 cb=1 dom=1" % (1 | 4 | 512)]
ZERO = 1 << 18
PMT = ["pkt pkt_mt -P 2", "pkt pkt_mt -P 2 held=0", "pkt pkt_mt -P 1 dom=1", "pkt pkt_mt -P 1 workers=3 dom=2", "pkt pkt_mt -P 1 peers=5 subs=4", "pkt pkt_mt -P 1 peers=13 subs=11", "pkt pkt_mt -P 1 held=0 peers=14 subs=11 dom=1"]
for _k in ("C19", "C16", "C12", "C13", "C04"):
    WIDE[_k] += PMT
WIDE["C19"] += ["pkt pkt_seq -P 0 ops=%d depth=3" % (1024 | 1 | 4), "pkt pkt_seq -P 0 ops=%d depth=3 workers=2 dom=1" % (1024 | 1 | 4), "cli cli_pktlost -P 0 dom=0", "cli cli_pktlost -P 0 dom=2"]
WIDE["C08"] += ["pkt pkt_seq -P 0 ops=%d depth=3 dom=1" % (1024 | 64), seq(ZERO | REQ | CLOSE, depth=3, init=1)]
WIDE["C04"] += [seq(ZERO | REQ | UNKNOWN | BURST, depth=3, init=1), seq(ZERO | REQ | BURST, depth=3, init=2, workers=2), "pkt pkt_seq -P 0 ops=%d depth=3" % (1024 | 1 | 2)]
WIDE["C05"] = WIDE.get("C05", []) + ["frame stop_early -P 2", "frame stop_early -P 1 -S 1 workers=3 reqs=2", seq(ZERO | REQ | BURST, depth=3, init=1, workers=3)]
WIDE["C17"] += ["frame stop_early -P 2 -S 1", "frame stop_early -P 2 workers=3", "frame stop_early -P 2 workers=0", "frame stop_early -P 1 workers=2 reqs=3"]
WIDE["C07"] += [seq(ZERO | REQ | PART | BURST, depth=3, init=1)]
for _k in ("C02", "C25", "C09", "C03"):
    WIDE[_k] += ["cli cli_pktlost -P 0 dom=%d" % d for d in (0, 1)]
# the descriptors of the clients, and with them their places in the tables, are any
WIDE["C12"] += ["srv srv_subs -P 0 fdbase=%d" % b for b in (5, 11)] + [seq(CONNECT | SUB | APIBCAST | CLOSE, depth=3, init=2, peers=3, fdbase=b) for b in (2, 8, 10, 11, 25)] + ["srv mt_clients -P 1 fdbase=7"]
WIDE["C13"] += [seq(CONNECT | CLOSE | RESET | REQ, depth=3, init=2, peers=4, fdbase=b) for b in (8, 11, 28)]
# what the system refuses: every choice of -E refusals together, at every place where memory, a thread, a descriptor, an address or a place in an epoll set is asked for
FS = lambda E, P=0, **kw: "fault flt_setup -P %d -E %d %s" % (P, E, " ".join("%s=%s" % i for i in kw.items()))
FR = lambda E, P=0, **kw: "fault flt_run -P %d -E %d %s" % (P, E, " ".join("%s=%s" % i for i in kw.items()))
FC = lambda E, P=0, **kw: "fclient flt_client -P %d -E %d %s" % (P, E, " ".join("%s=%s" % i for i in kw.items()))
P["C26"] = dict(keep=True,
    Q=[FS(2), FS(2, workers=2, own=1), FS(2, workers=3, protos=14), FS(3, links=1), FS(5, protos=17, **{"from": 11}), FS(1, P=1, workers=2, links=1)]
      + [FR(2, hist=h, workers=w) for h in (0, 1, 2, 3) for w in (0, 2, 3)]
      + [FR(2, hist=1, peers=14), FR(2, hist=1, peers=14, workers=2), FR(2, hist=0, peers=14), FR(4, hist=0, peers=17, **{"from": 12}), FR(5, hist=1, peers=16, workers=2, **{"from": 12})]
      + [FR(1, P=1, hist=0, workers=2, peers=2), FR(1, P=1, hist=3, workers=2), FR(1, P=1, hist=2, workers=2, peers=1), FR(1, P=1, hist=1, workers=2, peers=2)]
      + [FC(3, dgram=d) for d in (0, 1)] + [FC(3, dgram=d, once=1) for d in (0, 1)]
      + [FC(2, hist=1, dgram=d, mode=m) for d in (0, 1) for m in (0, 1, 2)] + [FC(3, hist=2, mode=m) for m in (0, 1, 2)]
      + [FC(2, hist=3), FC(4, hist=3, **{"from": 8}), FC(4, hist=1, **{"from": 11})],
    T=[FS(3, workers=3, protos=14), FR(3, hist=0, workers=3), FR(3, hist=1, workers=3, peers=14), FR(3, hist=2, workers=2), FR(3, hist=3, workers=2), FR(5, hist=0, peers=16, **{"from": 11}), FR(2, P=1, hist=0, workers=2, peers=2), FR(1, P=2, hist=3, workers=2),
       FR(2, P=1, hist=2, workers=2, peers=1), FC(5, hist=3, **{"from": 8}), FC(5, hist=1, **{"from": 11}), FC(4), FC(4, dgram=1), FC(4, hist=2)])

# what sending returns
P["C27"] = dict(keep=True,
    Q=["frame frame_truth -P 0", "frame frame_truth -P 0 workers=2", "frame frame_truth -P 1 sched=1", "cli cli_truth -P 0", "cli cli_truth -P 1 sched=1",
       *["pkt pkt_seq -P 0 ops=%d depth=4 dom=%d workers=%d" % (1 | 4 | 16 | 128 | 256, d, w) for d, w in ((0, 0), (0, 2))], "pkt pkt_seq -P 0 ops=%d depth=3 dom=1" % (1 | 4 | 16 | 128 | 256),
       "frame frame_send -P 0", "frame frame_send -P 0 workers=2", "cli cli_send -P 0", "cli cli_sendmix -P 2 cap=1", "srv mt_sendmix -P 1", "frame frame_short -P 0 -E 2 mask=7", "cli cli_short -P 0 -E 2"],
    T=["frame frame_truth -P 2 sched=1", "frame frame_truth -P 1 sched=1 workers=2", "cli cli_truth -P 2 sched=1", "pkt pkt_seq -P 0 ops=%d depth=5" % (1 | 4 | 16 | 128 | 256), "frame frame_short -P 0 -E 3 mask=7"])
for _k in ("C04", "C05", "C24"):
    WIDE[_k] += ["wide wide_bursts -P 0 workers=%d" % w for w in (2, 3)]
P["C28"] = dict(
    Q=["e2e e2e_values -P 0 calls=2 shapes=4", "e2e e2e_values -P 0 calls=1 workers=2", "e2e e2e_values -P 0 calls=1 pkt=1", "e2e e2e_values -P 0 calls=1 pkt=1 workers=2", "e2e e2e_values -P 0 -E 1 calls=1 short=7", "e2e e2e_values -P 0 calls=1 cap=5", "e2e e2e_values -P 1 calls=1",
       "e2e e2e_seq -P 0 depth=4 ops=895", "e2e e2e_seq -P 0 depth=4 ops=12327", "e2e e2e_seq -P 0 depth=3", "e2e e2e_seq -P 0 depth=3 workers=2", "e2e e2e_seq -P 0 depth=3 pkt=1", "e2e e2e_seq -P 0 depth=3 pkt=1 workers=2",
       "e2e e2e_mt -P 1", "e2e e2e_mt -P 1 share=0", "e2e e2e_mt -P 0 workers=2", "e2e e2e_mt -P 1 pkt=1", "e2e e2e_values -P 0 calls=1 cap=64 workers=2",
       "e2e e2e_later -P 1", "e2e e2e_later -P 1 clients=2", "e2e e2e_later -P 0 clients=2 workers=2", "e2e e2e_end -P 1", "e2e e2e_end -P 0 workers=2", "e2e e2e_end -P 1 pkt=1",
       "e2e e2e_sizes -P 0", "e2e e2e_sizes -P 0 pkt=1", "e2e e2e_sizes -P 0 cap=512 workers=2", "e2e e2e_sizes -P 0 cap=16", "e2e e2e_big -P 0"],
    T=["e2e e2e_values -P 0 calls=3 shapes=2", "e2e e2e_values -P 2 calls=1", "e2e e2e_values -P 0 -E 2 calls=1 short=7", "e2e e2e_mt -P 0 threads=3", "e2e e2e_seq -P 0 depth=4", "e2e e2e_seq -P 0 depth=5 ops=711", "e2e e2e_seq -P 0 depth=5 ops=12295", "e2e e2e_seq -P 0 depth=4 ops=877 workers=2", "e2e e2e_seq -P 0 depth=4 workers=2", "e2e e2e_seq -P 0 depth=4 pkt=1", "e2e e2e_mt -P 2", "e2e e2e_mt -P 1 times=2", "e2e e2e_mt -P 1 threads=3", "e2e e2e_mt -P 1 workers=2", "e2e e2e_later -P 2 clients=2", "e2e e2e_later -P 1 clients=2 workers=2", "e2e e2e_end -P 2", "e2e e2e_end -P 1 workers=2"])
P["C29"] = dict(
    Q=["e2e two_seq -P 0 depth=3", "e2e two_seq -P 0 depth=3 own=1", "e2e two_seq -P 0 depth=4 ops=449", "e2e two_seq -P 0 depth=5 ops=449", "e2e two_seq -P 0 depth=4 ops=449 workers=2", "e2e two_seq -P 0 depth=3 pkt=1", "e2e two_seq -P 0 depth=3 own=1 pkt=1",
       "e2e two_seq -P 0 depth=3 own=1 workers2=2 ops=451", "e2e two_seq -P 0 depth=4 own=1 ops=449", "e2e two_seq -P 0 depth=2 workers=2 workers2=2 pkt=1", "e2e two_seq -P 0 depth=3 ops=1 workers=3 workers2=2", "e2e two_seq -P 0 depth=3 ops=1 workers=2 workers2=3", "e2e two_mt -P 2", "e2e two_mt -P 1 leave=1", "e2e two_mt -P 1 workers=2", "e2e two_mt -P 1 pkt=1", "e2e two_mt -P 1 own=1",
       "e2e two_stop -P 2", "e2e two_stop -P 1 workers=2 workers2=2", "e2e two_stop -P 1 pkt=1", "e2e two_stop -P 1 own=1", "e2e two_chain -P 1", "e2e two_chain -P 1 share=1", "e2e two_chain -P 0 workers=2", "e2e two_chain -P 1 threads=1 workers=2 workers2=2",
       "e2e two_chain -P 0 pkt=1", "e2e two_chain -P 1 threads=1 times=2", "e2e two_chain -P 1 threads=1 own=1 workers=2", "frame stop_own -P 1", "frame stop_own -P 1 workers=2"],
    keep=1,
    T=["e2e two_seq -P 0 depth=4", "e2e two_seq -P 0 depth=4 own=1", "e2e two_seq -P 0 depth=3 workers=2 workers2=2", "e2e two_seq -P 0 depth=4 ops=463 pkt=1", "e2e two_seq -P 0 depth=6 ops=449", "e2e two_seq -P 0 depth=4 ops=451 workers=2 workers2=2", "e2e two_mt -P 2 leave=1 workers=2", "e2e two_stop -P 2 workers=2 workers2=2", "e2e two_stop -P 3", "e2e two_chain -P 2", "e2e two_chain -P 1 workers=2 share=1"])
for _k, _v in WIDE.items():
    P[_k]["Q"] = P[_k]["Q"] + _v

# faults of the system below: accept fails and the connection stays pending (16), waits are interrupted (32), sends and receives are cut short or interrupted (1, 2, 4)
def fseq(faults, E, ops, **kw):
    return "srv srv_seq -P 0 -E %d ops=%d faults=%d %s" % (E, ops, faults, " ".join("%s=%s" % i for i in kw.items()))


IDS = {"C01": [cseq(K_CALL | K_RESP | K_ERR | K_DUP | K_UNSOL | K_AWAIT | K_RESULT | K_WAITNB, depth=5, calls=3, firstid=9), cmt([AWAIT, WAITC], 1, firstid=9), cmt([ALL2, ANY2], 1, firstid=9)],
       "C02": [cseq(K_CALL | K_RESP | K_ERR | K_ERRX | K_AWAIT | K_ASYNC | K_RESULT | K_WAITNB, depth=5, calls=3, firstid=9), cmt([ALL2, ASYNC, PUMP], 1, firstid=9)],
       "C20": [cseq(K_CALL | K_RESP | K_ERR | K_DUP | K_RESULT | K_WAITNB, depth=5, calls=3, firstid=9)]}
for _k, _v in IDS.items():
    P[_k]["Q"] = P[_k]["Q"] + _v
FAULTS = {
    "C04": [fseq(7, 1, REQ | BURST | UNKNOWN, depth=3, init=1), fseq(39, 1, REQ | BURST | UNKNOWN, depth=3, init=1, workers=2)],
    "C05": [fseq(32, 2, REQ | BURST, depth=3, init=1, workers=2), fseq(48, 2, CONNECT | REQ | CLOSE, depth=3, init=1, workers=2)],
    "C07": [fseq(7, 2, REQ | BURST | PART, depth=2, init=1), fseq(7, 1, REQ | BURST | PART, depth=3, init=1, workers=2)],
    "C08": [fseq(55, 1, CONNECT | REQ | CLOSE | RESET, depth=3, init=1)],
    "C12": [fseq(2, 2, SUB | APIBCAST | TARGET, depth=3, init=2), fseq(6, 1, BCAST | SELF | NEST, depth=3, init=2, workers=2)],
    "C13": [fseq(16, 2, CONNECT | CLOSE | RESET | REQ, depth=3, init=1, peers=3, stop=1), fseq(48, 2, CONNECT | CLOSE | REQCLOSE, depth=3, init=1, peers=3, workers=2)],
    "C14": [fseq(7, 1, DEFER | REQ, depth=3, init=2)],
    "C17": [fseq(48, 2, CONNECT | CLOSE | RESET | REQ, depth=3, init=1, peers=3, stop=1), fseq(48, 1, CONNECT | REQ | SUB, depth=3, init=1, peers=3, workers=2, stop=1)],
}
for _k, _v in FAULTS.items():
    P[_k]["Q"] = P[_k]["Q"] + _v

# runs that take longer than half a minute stay in the thorough tier, what is listed as T otherwise belongs to both
HEAVY = {"e2e e2e_seq -P 0 depth=4 workers=2", "e2e e2e_mt -P 1 threads=3", "e2e e2e_mt -P 0 threads=3", "e2e e2e_seq -P 0 depth=4 ops=877 workers=2", "e2e e2e_seq -P 0 depth=5 ops=711", "e2e e2e_values -P 0 calls=3 shapes=2",
         cmt([ASYNCALL2, ASYNCANY2, PUMP], 2), cseq(K_CALL | K_RESP | K_ERR | K_EVENT | K_AWAIT | K_ASYNC | K_WAITNB | K_RESULT, depth=5, init=2, calls=3), cmt([AWAIT, AWAIT, AWAIT], 2, S=1),
         seq(REQ | UNKNOWN | BURST, depth=4, init=2, workers=2, paylen=100), seq(REQ | UNKNOWN | BURST | PART | CLOSE | CONNECT, depth=4, init=1, workers=3),
         "pkt pkt_seq -P 0 ops=%d depth=4 mixed=1" % (64 | 1 | 4), seq(SUB | BCAST | NEST | SELF | TARGET | CLOSE, depth=4, init=2, workers=2), seq(DEFER | BURST | CLOSE | CONNECT, depth=5, init=2, workers=2),
         "rwlock rw_mt -P 2 threads=4 scripts=7", "rwlock rw_mt -P 2 threads=5", "pkt pkt_seq -P 0 ops=%d depth=4 mixed=1 peers=3" % (1 | 4 | 8 | 16), "pkt pkt_seq -P 0 ops=%d depth=5" % (1 | 4 | 512),
         seq(REG | REQ | UNKNOWN, depth=5, init=1, workers=2), seq(SUB | APIBCAST, depth=5, init=2), "cli cli_mem -P 0 depth=5", "containers arena_small -P 0 depth=9", "containers arena_odd -P 0 depth=8", "containers arena_server -P 0 depth=10", "containers arena_client -P 0 depth=10"}
for _v in P.values():
    if "T" in _v and not _v.get("keep"):
        _v["Q"] = _v["Q"] + [r for r in _v["T"] if r not in HEAVY and r not in _v["Q"]]
        _v["T"] = [r for r in _v["T"] if r in HEAVY]

# every pair of ways to wait (synchronous ones with each other, all of them next to a thread that pumps), with everything the server may do meanwhile
SYNC_MODES, ASYNC_MODES, TWO = (AWAIT, WAITC, ALL2, ANY2, NBAWAIT), (ASYNC, ASYNCALL2, ASYNCANY2), (ALL2, ANY2, ASYNCALL2, ASYNCANY2)
PAIRS = [(a, b) for a in SYNC_MODES for b in SYNC_MODES if a <= b] + [(a, PUMP) for a in SYNC_MODES + ASYNC_MODES]
TRIPLES = [(a, b, PUMP) for a in SYNC_MODES + ASYNC_MODES for b in SYNC_MODES + ASYNC_MODES if a <= b]
def heavy(m): return sum(x in TWO for x in m) > 1
for _m in PAIRS:
    _p = 1 if heavy(_m) else 2
    P["C01"]["Q"] += [r for r in (cmt(_m, _p, dups=1), cmt(_m, _p, part=1), cmt(_m, _p, errs=1)) if r not in P["C01"]["Q"]]
    P["C02"]["Q"] += [r for r in (cmt(_m, _p, errs=1), cmt(_m, _p, eager=1, errs=1), cmt(_m, 1, S=1, errs=1), cmt(_m, 1, events=2)) if r not in P["C02"]["Q"]]
    P["C03"]["Q"] += [r for r in (cmt(_m, _p, close=1), cmt(_m, 1, errs=1, close=1)) if r not in P["C03"]["Q"]]
    P["C25"]["Q"] += [r for r in (cmt(_m, 1, events=2),) if r not in P["C25"]["Q"]]
    if heavy(_m):
        P["C01"]["T"] += [cmt(_m, 2, dups=1), cmt(_m, 2, errs=1)]
        P["C02"]["T"] += [cmt(_m, 2, eager=1, errs=1), cmt(_m, 2, S=1, errs=1)]
        P["C03"]["T"] += [cmt(_m, 2, close=1), cmt(_m, 2, errs=1, close=1)]
    else:
        P["C01"]["T"] += [cmt(_m, 3, dups=1)]
        P["C02"]["T"] += [cmt(_m, 2, S=1, errs=1), cmt(_m, 3, errs=1)]
        P["C03"]["T"] += [cmt(_m, 3, close=1), cmt(_m, 2, errs=1, close=1)]
for _m in TRIPLES:
    P["C01"]["T"] += [cmt(_m, 1, dups=1)]
    P["C02"]["T"] += [cmt(_m, 1, eager=1, errs=1)]
    P["C03"]["T"] += [cmt(_m, 1, close=1)]
    if not heavy(_m):
        P["C25"]["T"] += [cmt(_m, 1, events=2)]

GASSUME = [
    "the generator of /repo is run as its users run it; what it writes is compiled with clang for x86-64 (little endian) with AddressSanitizer and executed",
    "the transport below the stubs is a stand-in that captures and delivers the bytes (C01-C05 cover the real one)",
    "bounds: the type grammar, signatures, structures, values, identifiers and helper-call sequences listed per run; names are legal C identifiers that do not clash with each other or with the names the stubs use themselves",
]
GTECH = "bounded exhaustive enumeration of protocols and values (explicit-state exploration of a reference model), every point replayed on the real generator and its compiled output"
GNOTE = "Every protocol and value inside the bounds is generated, compiled and executed, and compared with the reference model of the language and its wire format; nothing is claimed beyond the bounds. Trusted: the model in vlib/gen.py, clang, the driver it writes."
P["C06"] = dict(gen={"what": ["sig", "struct", "sizes"], "deep": True}, assume=GASSUME, technique=GTECH, note=GNOTE)
P["C18"] = dict(gen={"what": ["ids", "types", "order", "names", "lex", "flags"]}, assume=GASSUME, technique=GTECH, note=GNOTE)
P["C22"] = dict(gen={"what": ["helpers", "sizehelpers"], "deep": True}, assume=GASSUME, technique=GTECH, note=GNOTE)

ASSUME = [
    "the code under test is the real C code of /repo, compiled with clang -O1 and executed under the explorer's scheduler; threads, locks, sockets, epoll and the heap are the explorer's (engine/), assumed to behave as POSIX/Linux documents",
    "sequentially consistent memory; accesses that race are scheduling points",
    "bounds as listed per run (preemptions, spurious wake-ups, environment deviations, depth of the histories, alphabets of sizes and ids)",
]
TECH = "stateless model checking of the real C code: exhaustive enumeration of schedules and operation/fault histories under a controlled scheduler and simulated kernel"
NOTE = "Every execution within the stated bounds is run on the real code and checked against an independent reference model; nothing is claimed beyond the bounds. Trusted: the explorer, its simulated sockets/threads/heap, clang, sequential consistency."
NA = {}
