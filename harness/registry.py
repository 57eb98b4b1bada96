"""Which models and which recorded behaviours decide which property."""
import os
import subprocess
import sys

import tlc


def mc(module, cfg=None, thorough=None, timeout=250, unused=()):
    """unused: actions that this configuration switches off"""
    return {"kind": "mc", "module": module, "unused": list(unused), "cfg": cfg or module + ".cfg", "thorough_cfg": thorough,
            "timeout": timeout}


def tr(driver, func, spec, quick, thorough=None, offset=0, cfg=None, batch=4000, **params):
    return {"kind": "trace", "driver": driver, "func": func, "spec": spec, "quick": quick,
            "thorough": thorough or quick * 40, "offset": offset, "cfg": cfg, "batch": batch,
            "params": params}


def gr(module, driver, spec, quick, cfg=None, thorough_cfg=None, **params):
    """scripts from the model, executed and judged"""
    return {"kind": "graph", "module": module, "cfg": cfg or module + ".cfg", "thorough_cfg": thorough_cfg,
            "driver": driver, "func": "script", "spec": spec, "quick": quick, "thorough": 10 ** 6,
            "params": params}


ASSUMPTIONS = [
    "asyncio runs ready callbacks in FIFO order (documented); schedules are varied through when the "
    "environment acts, how long handlers and API calls take, and where cancellations hit",
    "time is virtual: loop timers, time.time and time.monotonic advance together",
    "models are checked exhaustively within the constants of their .cfg files",
]

def inf(chk, n, **kw):
    return tr("drv_informer", "trace", "InformerTrace", n, chk=chk, batch=2000, **kw)


CHECKS = {
    "C01": [
        mc("MCDeltaFifo"), mc("MCReflector"), mc("MCInformer", thorough="MCInformerThorough.cfg"),
        inf("C01", 600), inf("C01", 200, simple=True, offset=500000),
        inf("C01", 250, late=True, steps=4, offset=200000),
    ],
    "C02": [
        mc("MCInformer", thorough="MCInformerThorough.cfg"),
        inf("C02", 500), inf("C02", 300, late=True, steps=4, offset=200000),
        inf("C02", 200, simple=True, offset=500000), inf("C02", 8, flood=True, offset=900000),
    ],
    "C03": [
        mc("MCDeltaFifo"),
        gr("GenDeltaFifo", "drv_deltafifo", "DeltaFifoTrace", 12000, thorough_cfg="GenDeltaFifoThorough.cfg", chk="deltas"),
        tr("drv_deltafifo", "trace", "DeltaFifoTrace", 1000, chk="deltas"),
    ],
    "C04": [
        mc("MCDeltaFifo"),
        gr("GenDeltaFifo", "drv_deltafifo", "DeltaFifoTrace", 2500, chk="deltas"),
        gr("GenDeltaFifo", "drv_deltafifo", "DeltaFifoTrace", 2500, cfg="GenDeltaFifoNoKnown.cfg", hasknown=False, chk="deltas"),
        tr("drv_deltafifo", "trace", "DeltaFifoTrace", 700, mode="follow", chk="deltas"),
        tr("drv_deltafifo", "trace", "DeltaFifoTrace", 300, mode="noknown", chk="deltas", offset=500000),
        tr("drv_deltafifo", "trace", "DeltaFifoTrace", 200, mode="free", chk="deltas", offset=700000),
    ],
    "C05": [
        mc("MCDeltaFifo"), mc("MCFifo"), mc("MCInformer", thorough="MCInformerThorough.cfg"),
        gr("GenDeltaFifo", "drv_deltafifo", "DeltaFifoTrace", 2500),
        gr("GenFifo", "drv_fifo", "FifoTrace", 2500),
        tr("drv_deltafifo", "trace", "DeltaFifoTrace", 600),
        tr("drv_fifo", "trace", "FifoTrace", 300),
        inf("C05", 250),
    ],
    "C06": [
        mc("MCFifo"),
        gr("GenFifo", "drv_fifo", "FifoTrace", 7000, thorough_cfg="GenFifoThorough.cfg", chk="items"),
        tr("drv_fifo", "trace", "FifoTrace", 1200, chk="items"),
    ],
    "C07": [
        mc("MCIndexer"),
        gr("GenIndexer", "drv_indexer", "IndexerTrace", 5000, thorough_cfg="GenIndexerThorough.cfg"),
        tr("drv_indexer", "trace", "IndexerTrace", 1200),
    ],
    "C08": [
        mc("MCWorkQueue"),
        gr("GenWorkQueue", "drv_workqueue", "WorkQueueTrace", 3000, thorough_cfg="GenWorkQueueThorough.cfg"),
        tr("drv_workqueue", "trace", "WorkQueueTrace", 900, kind="plain"),
        tr("drv_workqueue", "trace", "WorkQueueTrace", 300, offset=500000, nodelay=True),
    ],
    "C09": [
        mc("MCWorkQueue"),
        gr("GenWorkQueue", "drv_workqueue", "WorkQueueTrace", 1500, thorough_cfg="GenWorkQueueThorough.cfg", kind="delay"),
        tr("drv_workqueue", "trace", "WorkQueueTrace", 1000, focus="shut"),
        tr("drv_workqueue", "burst", "DelayTrace", 120, shut=True),
        tr("drv_workqueue", "burst", "DelayTrace", 8, shut=True, big=True, offset=200000),
    ],
    "C10": [
        mc("MCDelayQueue"),
        gr("GenWorkQueue", "drv_workqueue", "WorkQueueTrace", 2500, cfg="GenDelayQueue.cfg",
           thorough_cfg="GenDelayQueueThorough.cfg", kind="delay"),
        gr("GenWorkQueue", "drv_workqueue", "WorkQueueTrace", 1000, cfg="GenDelayQueue.cfg",
           thorough_cfg="GenDelayQueueThorough.cfg", kind="rate"),
        tr("drv_workqueue", "trace", "WorkQueueTrace", 500, kind="delay", focus="late"),
        tr("drv_workqueue", "trace", "WorkQueueTrace", 500, kind="delay", offset=300000),
        tr("drv_workqueue", "trace", "WorkQueueTrace", 200, kind="rate", offset=600000),
        tr("drv_workqueue", "many", "WorkQueueTrace", 48),
        tr("drv_workqueue", "burst", "DelayTrace", 250),
        tr("drv_workqueue", "burst", "DelayTrace", 16, big=True, offset=200000),
    ],
    "C11": [
        mc("MCRateLimit"),
        tr("drv_ratelimit", "trace", "RateLimitTrace", 800),
    ],
    "C12": [
        mc("MCController", thorough="MCControllerThorough.cfg"),
        tr("drv_controller", "trace", "ControllerTrace", 1000, chk="C12"),
    ],
    "C13": [
        mc("MCPipeline", thorough="MCPipelineThorough.cfg"),
        tr("drv_manager", "trace", "PipelineTrace", 450, chk="C13"),
        tr("drv_manager", "direct", "PipelineTrace", 300),
    ],
    "C14": [
        mc("MCReflector"),
        tr("drv_reflector", "trace", "ReflectorTrace", 1500, chk="C14"),
        inf("C14", 150),
    ],
    "C15": [
        mc("MCResync", thorough="MCResyncThorough.cfg"),
        inf("C15", 700), inf("C15", 200, simple=True, offset=500000),
        tr("drv_manager", "resync", "CacheResyncTrace", 300, thorough=8000),
    ],
    "C16": [
        mc("MCBroadcast", thorough="MCBroadcastThorough.cfg"),
        *[gr("GenBroadcast", "drv_broadcast", "BroadcastTrace", 3000, cfg="GenBroadcast%s.cfg" % n,
             thorough_cfg="GenBroadcast%sThorough.cfg" % n, drop=d, qlen=q)
          for n, d, q in (("Wait0", False, 0), ("Wait1", False, 1), ("Drop", True, 1))],
        tr("drv_broadcast", "trace", "BroadcastTrace", 450),
        tr("drv_broadcast", "trace", "BroadcastTrace", 80, flood=True, offset=500000),
    ],
    "C17": [
        mc("MCElection", thorough="MCElectionThorough.cfg", unused=()),
        tr("drv_election", "trace", "ElectionTrace", 1500, chk="C17"),
    ],
    "C18": [
        mc("MCElection", cfg="MCElectionTaken.cfg", unused=("Fail", "Crash", "Touch")),
        mc("MCElection", cfg="MCElectionFaults.cfg", unused=("Crash", "Touch")),
        tr("drv_election", "trace", "ElectionTrace", 900, chk="C18"),
        tr("drv_election", "trace", "ElectionTrace", 300, chk="C18", mode="clean", offset=500000),
        tr("drv_election", "trace", "ElectionTrace", 300, chk="C18", mode="solo", offset=800000),
    ],
    "C19": [
        mc("MCManager", thorough="MCManagerThorough.cfg"),
        tr("drv_manager", "trace", "ManagerTrace", 500, chk="C19"),
        tr("drv_manager", "trace", "ManagerTrace", 400, chk="C19", cacheonly=True, offset=300000),
    ],
    "C20": [
        mc("MCWait"),
        tr("drv_wait", "trace", "WaitTrace", 4000, batch=8000),
    ],
    "C21": [
        mc("MCInformer"), mc("MCInformer", cfg="MCInformerTold.cfg"),
        inf("C21", 700), inf("C21", 8, flood=True, offset=900000),
        inf("C21", 200, simple=True, offset=500000),
    ],
    "C22": [
        mc("MCInformerStop"), mc("MCController"), mc("MCManager"),
        tr("drv_reflector", "trace", "ReflectorTrace", 800, chk="C22"),
        tr("drv_controller", "trace", "ControllerTrace", 400, chk="C22"),
        mc("MCSupervise"), tr("drv_manager", "supervised", "SuperviseTrace", 500),
        tr("drv_manager", "trace", "ManagerTrace", 400, chk="C22"),
        tr("drv_manager", "trace", "ManagerTrace", 200, chk="C22", cacheonly=True, offset=300000),
        inf("C22", 1500), inf("C22", 300, simple=True, offset=500000),
    ],
    "C23": [
        mc("MCClock"),
        gr("GenClock", "drv_clock", "ClockTrace", 8000, thorough_cfg="GenClockThorough.cfg"),
        tr("drv_clock", "trace", "ClockTrace", 1600),
    ],
    "C24": [
        mc("MCReflector"),
        tr("drv_reflector", "trace", "ReflectorTrace", 1200, chk="C24"),
        tr("drv_meta", "trace", "MetaTrace", 300),
    ],
    "C25": [
        mc("MCConfigMapLock", thorough="MCConfigMapLockThorough.cfg", unused=("Cancel", "Orphan")),
        mc("MCConfigMapLock", cfg="MCConfigMapLockOrphans.cfg"),
        tr("drv_election", "locks", "ConfigMapLockTrace", 1500),
    ],
    "C26": [
        mc("MCFakeSource", thorough="MCFakeSourceThorough.cfg"),
        tr("drv_fakes", "source", "FakeSourceTrace", 500),
        tr("drv_fakes", "watcher", "FakeSourceTrace", 2000),
        tr("drv_fakes", "absent", "FakeSourceTrace", 60),
        tr("drv_fakes", "custom", "CustomStoreTrace", 300),
    ],
    "C27": [
        mc("MCWiring"),
        tr("drv_wiring", "trace", "WiringTrace", 1500),
    ],
    "C28": [
        mc("MCRetry", thorough="MCRetryThorough.cfg", unused=["Requeue"]), mc("MCRetry", "MCRetryOff.cfg"),
        tr("drv_lowctl", "trace", "RetryTrace", 1500, thorough=60000),
    ],
}


def setup():
    """Parse every specification once (nothing to build: Python and TLA+ text)."""
    bad = 0
    for f in sorted(os.listdir(tlc.SPEC)):
        if f.endswith(".tla"):
            p = subprocess.run(["java", "-cp", tlc.JARS, "tla2sany.SANY", f], cwd=tlc.SPEC,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0 or "*** Errors" in p.stdout:
                print(f, p.stdout[-1500:])
                bad += 1
    print("specs parsed, %d bad" % bad)
    return 1 if bad else 0
