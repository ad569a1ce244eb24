"""Properties of asyncz that static analysis cannot decide here (listed, not claimed)."""


def na(id, title, statement, over, quant, why, files, mech, reason):
    return {"id": id, "title": title, "statement": " ".join(statement.split()), "quantifier": {"over": over, "text": quant}, "why_tests_cant": " ".join(why.split()),
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, "reason": " ".join(reason.split())}


NA = [
    na("N01", "Cron run times are exactly the next matching wall-clock times",
       """A cron trigger yields the earliest time after the given one that matches all its fields in the trigger's time zone, across month ends,
       leap years and daylight-saving changes.""", ["inputs"], "every field expression, time zone and start time",
       "the calendar and zone transitions form a space far larger than the sampled dates",
       ["asyncz/triggers/cron/trigger.py", "asyncz/triggers/cron/fields.py", "asyncz/triggers/cron/expressions.py"], [("CronTrigger.get_next_trigger_time", "asyncz/triggers/cron/trigger.py")],
       """The answer is the value of calendar arithmetic (datetime, zone database) iterated in a loop with no static bound; a sound static domain for it would have to
       model the calendar itself. C40 decides only the bounds (start, end) and C43 the jitter."""),
    na("N02", "A due task is started promptly",
       "While the scheduler runs, a task whose run time has come is handed to its executor within a bounded delay.", ["schedules"], "every load, timer resolution and event loop state",
       "delays depend on load and on what else the event loop runs", ["asyncz/schedulers/asyncio.py", "asyncz/schedulers/base.py"], [("start_timer/wakeup", "asyncz/schedulers/asyncio.py")],
       "Real-time latency of the event loop, timers and executors is a run-time quantity; C18 and C06 decide that the pass is re-armed with the right wait and woken when something earlier arrives."),
    na("N03", "Two processes sharing a store never run the same due task twice",
       "With a lock path or a shared database, a due run is processed by one of the processes only.", ["schedules", "crash_points"], "every interleaving of processes",
       "needs real processes and file locks in adversarial timing", ["asyncz/locks.py", "asyncz/file_locking.py", "asyncz/stores/redis.py", "asyncz/stores/mongo.py", "asyncz/stores/sqlalchemy.py"],
       [("FileProtector", "asyncz/locks.py")],
       """It rests on the semantics of the operating system's file locks and of third-party databases, which are outside the analysed source. C01 decides that the lock is taken and given back
       on every path, C02 that locks are ordered, C33 that the lock protects the whole operation."""),
    na("N04", "A crash while a task is being stored loses neither the old nor the new task",
       "If the process dies during a store write, the store afterwards holds either the old or the new version of the task.", ["crash_points"], "every instruction at which the process may die",
       "a test does not kill the process between two system calls", ["asyncz/stores/file.py"], [("FileStore.update_task", "asyncz/stores/file.py")],
       "Durability depends on the file system's ordering of writes and truncation, which no analysis of the Python source bounds; C25 and C32 decide that serialisation precedes the write and that writes are completed under the lock."),
    na("N05", "An AND trigger of satisfiable triggers always finds their common time",
       "If nested triggers have a common future time, an AND trigger finds it in finite time.", ["inputs"], "every combination of nested triggers",
       "termination cannot be sampled", ["asyncz/triggers/combination.py"], [("AndTrigger.get_next_trigger_time", "asyncz/triggers/combination.py")],
       "Termination of the agreement loop depends on the number theory of the nested schedules; two never-agreeing interval triggers loop forever by construction, so no ranking argument exists. C42 decides that only agreed times are yielded."),
    na("N06", "A stored task comes back with arguments equal to the original ones",
       "After storing and loading, positional and keyword arguments compare equal to what was stored.", ["inputs"], "every picklable argument",
       "the argument space is unbounded", ["asyncz/tasks/base.py", "asyncz/stores/base.py"], [("Task.__getstate__/__setstate__", "asyncz/tasks/base.py")],
       "Equality after pickling is decided by the user's own classes and the pickle library, not by asyncz's source; C36 decides that the arguments are part of the state and taken from the task."),
    na("N07", "A bounded run history always holds the most recent runs",
       "The history shown is always the most recent runs in the order in which they happened.", ["schedules"], "every interleaving of executions and submissions",
       "ordering of concurrent runs is a run-time matter", ["asyncz/contrib/dashboard/history.py"], [("MemoryRunHistoryStorage", "asyncz/contrib/dashboard/history.py")],
       "What happened first between threads is only defined at run time (timestamps taken outside the lock); C60 decides bounds and locking of the storage."),
]
