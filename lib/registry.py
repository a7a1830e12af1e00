"""Which models and which recorded executions decide which property."""
REGISTRY = {}


def add(pid, models, traces, **kw):
    REGISTRY[pid] = dict(models=models, traces=traces, **kw)


# ---------------------------------------------------------------- event slots
ES = [dict(module="MC_EventSlots", cfg="MC_EventSlots_q1.cfg"), dict(module="MC_EventSlots", cfg="MC_EventSlots_q2.cfg"),
      dict(module="MC_EventSlots", cfg="MC_EventSlots_q3.cfg"),
      dict(module="MC_EventSlots", cfg="MC_EventSlots_t1.cfg", tier="thorough"), dict(module="MC_EventSlots", cfg="MC_EventSlots_t2.cfg", tier="thorough"),
      dict(module="MC_EventSlots", cfg="MC_EventSlots_t4.cfg", tier="thorough")]


def slots(mode, q, th, **kw):
    return dict(harness="slots", mode=mode, spec="EventSlotsTrace", quick=q, thorough=th, **kw)


A_SCHED = ["interleavings at the granularity of atomic operations and mutexes, sequentially consistent values (memory orders are checked with vector clocks, not by reordering)",
           "score_baselibs is replaced by the stand-in in /verif/shim"]
add("C01", ES, [slots("default", (5, 500), (24, 500)), slots("b", (2, 450), (8, 450)), slots("prov", (2, 450), (8, 450)), slots("cons", (2, 400), (8, 450))], assumptions=A_SCHED)
add("C02", ES, [slots("default", (6, 500), (24, 500)), slots("b", (2, 450), (8, 450)), slots("prov", (2, 450), (8, 450))], assumptions=A_SCHED)
add("C03", ES, [slots("default", (6, 500), (24, 500)), slots("b", (3, 450), (8, 450)), slots("cons", (2, 450), (8, 450))], assumptions=A_SCHED)
add("C04", ES, [slots("b", (10, 450), (40, 450)), slots("prov", (2, 450), (8, 450))], assumptions=A_SCHED)
add("C05", ES, [slots("cons", (10, 450), (40, 450))], assumptions=A_SCHED)
add("C07", ES, [slots("subs", (10, 900), (40, 1000)), slots("cons", (2, 450), (4, 450))], assumptions=A_SCHED)
add("C08", ES, [slots("prov", (10, 450), (40, 450))], assumptions=A_SCHED)

# ---------------------------------------------------------------- recovery logs, application identities
TL = [dict(module="MC_TxLogs", cfg="MC_TxLogs_q1.cfg"), dict(module="MC_TxLogs", cfg="MC_TxLogs_q2.cfg"), dict(module="MC_TxLogs", cfg="MC_TxLogs_t1.cfg", tier="thorough")]
add("C06", TL, [dict(harness="txlogs", mode="default", spec="TxLogsTrace", quick=(10, 700), thorough=(60, 1000), group=50)], assumptions=A_SCHED)
add("C09", [dict(module="MC_PidMap", cfg="MC_PidMap_q1.cfg"), dict(module="MC_PidMap", cfg="MC_PidMap_t1.cfg", tier="thorough")],
    [dict(harness="txlogs", mode="pid", spec="PidMapTrace", quick=(8, 2000), thorough=(40, 2400), group=50)],
    assumptions=A_SCHED + ["registrations of the same identity do not overlap (one process per identity, one thread at a time through the recovery mutex)"])

# ---------------------------------------------------------------- message passing: deferred commands, waiting
add("M04", [dict(module="MC_Deferred", cfg="MC_Deferred_q1.cfg"), dict(module="MC_Deferred", cfg="MC_Deferred_q2.cfg"), dict(module="MC_Deferred", cfg="MC_Deferred_t1.cfg", tier="thorough")],
    [dict(harness="mpq", mode="queue", spec="DeferredTrace", quick=(16, 1100), thorough=(160, 1100), group=100)], assumptions=A_SCHED)
add("M05", [dict(module="MC_Waiting", cfg="MC_Waiting_q1.cfg")],
    [dict(harness="mpq", mode="future", spec="WaitingTrace", quick=(16, 3000), thorough=(160, 3600), group=300)], assumptions=A_SCHED)

MP = [dict(module="MC_Messaging", cfg=f"MC_Messaging_{x}.cfg") for x in ("q1", "q2", "q3", "q4")] + [dict(module="MC_Messaging", cfg=f"MC_Messaging_{x}.cfg", tier="thorough") for x in ("t1", "t2")]
A_MP = A_SCHED + ["sockets are simulated (shim/score/os/simnet.h): reliable byte streams, failures injected at system calls; descriptors are not reused while a call uses them",
                  "Stop() does not race with the very beginning of Start()/Restart()"]
for pid in ("M01", "M02", "M03"):
    add(pid, MP, [dict(harness="mp", mode="default", spec="MessagingTrace", quick=(24, 250), thorough=(240, 300), group=50, seed0=int(pid[1:]) * 37)], assumptions=A_MP)

# ---------------------------------------------------------------- shared memory
def shm(mode, spec, q, th, **kw):
    return dict(harness="shm", mode=mode, spec=spec, quick=q, thorough=th, group=50, **kw)


add("S01", [dict(module="MC_RegionMap", cfg="MC_RegionMap_q1.cfg"), dict(module="MC_RegionMap", cfg="MC_RegionMap_q2.cfg"), dict(module="MC_RegionMap", cfg="MC_RegionMap_t1.cfg", tier="thorough")],
    [shm("regions", "RegionMapTrace", (12, 600), (80, 1000))], assumptions=A_SCHED)
add("S02", [dict(module="MC_RelPtr", cfg="MC_RelPtr_q1.cfg"), dict(module="MC_RelPtr", cfg="MC_RelPtr_t1.cfg", tier="thorough")],
    [shm("ptr", "RelPtrTrace", (16, 800), (80, 2000))], assumptions=A_SCHED)
add("S05", [dict(module="MC_Alloc", cfg="MC_Alloc_q1.cfg"), dict(module="MC_Alloc", cfg="MC_Alloc_t1.cfg", tier="thorough")],
    [shm("alloc", "AllocTrace", (10, 1000), (80, 2000))], assumptions=A_SCHED + ["at most 30 allocations per execution; contention below the documented retry limit"])
add("S04", [dict(module="MC_FileLock", cfg=f"MC_FileLock_{x}.cfg") for x in ("q1", "q2", "q3")] + [dict(module="MC_FileLock", cfg=f"MC_FileLock_{x}.cfg", tier="thorough") for x in ("t2", "t3")],
    [shm("lock", "FileLockTrace", (8, 700), (80, 1000))], assumptions=A_SCHED)
add("S03", [dict(module="MC_ShmObject", cfg="MC_ShmObject_q1.cfg"), dict(module="MC_ShmObject", cfg="MC_ShmObject_t1.cfg", tier="thorough")],
    [shm("create", "ShmObjectTrace", (16, 1200), (80, 2000))],
    assumptions=A_SCHED + ["one thread per process", "removal does not overlap with creations or other removals; stale artefacts are cleared only after their owner died"])

# ---------------------------------------------------------------- user interface
add("C11", [dict(module="MC_SampleHold", cfg="MC_SampleHold_q1.cfg"), dict(module="MC_SampleHold", cfg="MC_SampleHold_q2.cfg"), dict(module="MC_SampleHold", cfg="MC_SampleHold_t1.cfg", tier="thorough")],
    [dict(harness="api", mode="held", spec="SampleHoldTrace", quick=(8, 1000), thorough=(60, 2000), group=50)], assumptions=A_SCHED)

# ---------------------------------------------------------------- gateway
A_GW = A_SCHED + ["sockets are simulated (shim/score/os/simnet.h): reliable byte streams cut anywhere, failures injected at system calls; sending never blocks",
                  "a string in a message is not empty; a stalled receiver is not modelled"]
add("G01", [dict(module="MC_GatewayStream", cfg="MC_GatewayStream_q1.cfg"), dict(module="MC_GatewayStream", cfg="MC_GatewayStream_t1.cfg", tier="thorough")],
    [dict(harness="gw", mode="framer", spec="GatewayStreamTrace", quick=(16, 1500), thorough=(80, 4000), group=100)], assumptions=A_GW)
add("G02", [dict(module="MC_GatewayLink", cfg="MC_GatewayLink_q1.cfg"), dict(module="MC_GatewayLink", cfg="MC_GatewayLink_q2.cfg"), dict(module="MC_GatewayLink", cfg="MC_GatewayLink_t2.cfg", tier="thorough")],
    [dict(harness="gw", mode="transport", spec="GatewayLinkTrace", quick=(24, 600), thorough=(160, 1000), group=50)], assumptions=A_GW)

# ---------------------------------------------------------------- subscription life cycle
add("C10", [dict(module="MC_Subscription", cfg=f"MC_Subscription_{x}.cfg") for x in ("q1", "q2")] + [dict(module="MC_Subscription", cfg=f"MC_Subscription_{x}.cfg", tier="thorough") for x in ("t1", "t2")],
    [dict(harness="lola", mode="sub", spec="SubscriptionTrace", quick=(16, 1200), thorough=(120, 2000), group=50)],
    assumptions=A_SCHED + ["discovery and message passing are stand-ins: reports of the provider's presence alternate and may come late; one application thread per event object (two on the binding)"])
add("L01", [dict(module="MC_Notification", cfg=f"MC_Notification_{x}.cfg") for x in ("q1", "q2", "q3")] + [dict(module="MC_Notification", cfg=f"MC_Notification_{x}.cfg", tier="thorough") for x in ("t1", "t2", "t3")],
    [dict(harness="notify", mode="default", spec="NotificationTrace", quick=(16, 500), thorough=(120, 1000), group=50),
     # the known findings, each where it is not tolerated
     dict(harness="notify", mode="rediscover", spec="NotificationTrace", quick=(3, 800), thorough=(6, 1000), group=50),
     dict(harness="notify", mode="outdated", spec="NotificationTrace", quick=(2, 500), thorough=(4, 1000), group=50)],
    assumptions=A_SCHED + ["message passing between the processes is a stand-in: reliable, in order for each connection, with connections coming and going; at most five receivers for one event in a process", "a process registers again with a restarted provider for all its receivers before it registers or deregisters others; what a process sent before it ended is not received after another one with its pid started"])
add("L03", [dict(module="MC_Offering", cfg="MC_Offering_q1.cfg")] + [dict(module="MC_Offering", cfg=f"MC_Offering_{x}.cfg", tier="thorough") for x in ("q2", "t1", "t2")],
    [dict(harness="lola", mode="offer", spec="OfferingTrace", quick=(14, 600), thorough=(120, 2000), group=50),
     # the known findings, each where it is not tolerated
     dict(harness="lola", mode="offertake", spec="OfferingTrace", quick=(2, 100), thorough=(4, 200), group=50),
     dict(harness="lola", mode="offerlock", spec="OfferingTrace", quick=(3, 1000), thorough=(6, 2000), group=50),
     dict(harness="lola", mode="offerhalf", spec="OfferingTrace", quick=(3, 1000), thorough=(6, 2000), group=50)],
    assumptions=A_SCHED + ["a consumer which connects while the service is being withdrawn may go unnoticed by a later withdrawal", "offers and withdrawals of one instance by the real binding; events with one payload type, no fields or methods"])
