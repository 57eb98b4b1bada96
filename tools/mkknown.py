#!/usr/bin/env python3
"""Regenerate known_findings.json: open findings (none suppressed unless listed) and repaired defects."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [  # (commit subject, property, what failed)
 ("shut down the underlying queue when a delaying queue shuts down", "C09", "get() on a delaying or rate limiting queue blocked for ever after shut_down()"),
 ("pass on the wakeup of a cancelled work queue getter", "C08", "an item added while a cancelled getter was first in line woke nobody although other getters waited"),
 ("cap the item rate limiter's delay after 1024 failures instead of raising", "C11", "the 1025th failure of an item raised OverflowError (also ended controller workers, C12)"),
 ("delta queue replace deletes pending items missing from the list", "C04", "a relist without a pending, not yet known object queued no deletion for it; the object stayed in the store for ever"),
 ("do not drop a relisted object whose deletion is still pending", "C04", "a relisted object whose deletion was pending was dropped, so the store lost an existing object (C01)"),
 ("a delta queue is not synced while its last initial item is being processed", "C05", "has_synced was true while the last object of the first list was not in the store yet"),
 ("deleting an absent key from a FIFO is not an error", "C06", "FIFO.delete of an absent key raised KeyError"),
 ("allow an index function to return the same value twice", "C07", "an index function returning a value twice made update/delete raise KeyError and left stale index entries"),
 ("adding indexers only fails for conflicting names", "C07", "add_indexers failed for every non-empty set of existing indexers"),
 ("a cancelled broadcast watcher read does not lose an event", "C16", "cancelling a read of a broadcast watcher lost the event handed over at that moment"),
 ("relist when a watch stream raises instead of waiting for ever", "C14", "a watch iterator that raised left the reflector waiting for ever (C01)"),
 ("understand the api version of the core group", "C24", "api versions without a slash raised, so core group kinds could not be expected"),
 ("dict objects need not have a namespace", "C24", "cluster-scoped dict objects raised KeyError"),
 ("skip watch events without a kind or version instead of ending the watch", "C24", "a malformed watch event ended the watch"),
 ("a slow event handler does not hold up the informer", "C21", "one slow handler blocked the store and every other handler"),
 ("a failed event handler does not delay stopping the informer", "C22", "after a handler exception a cancelled informer took up to 60 s to finish"),
 ("tell every handler about changes discovered by a relist", "C02", "handlers not due for a resync never heard of changes discovered by a relist"),
 ("a delaying queue that shuts down leaves no timer running", "C22", "after shut_down() a timer task for the next delayed item kept running"),
]
EXTRA = os.path.join(V, "tools", "fixed_extra.json")
if os.path.exists(EXTRA):
    FIXED += [tuple(x) for x in json.load(open(EXTRA))]
OPEN = os.path.join(V, "tools", "open_findings.json")
log = dict((s[len("fix: "):], h) for h, s in (l.split(" ", 1) for l in subprocess.run(
    ["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines())
    if s.startswith("fix: "))
out = {"findings": json.load(open(OPEN)) if os.path.exists(OPEN) else [], "fixed": []}
missing = set(log) - {f[0] for f in FIXED}
for subj, prop, what in FIXED:
    out["fixed"].append("fixed: property=%s %s %s" % (prop, log[subj], what))
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(out["fixed"]), "fixed; not recorded:", missing)
