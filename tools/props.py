#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: tools/props.py)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, note, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, note=note, state=state, na=na))

prop("P01", "Every dispatched job runs exactly once with its payload intact",
     "While the job dispatcher is running, every job handed to it from any thread, including from inside another job, is executed exactly once on one of its worker threads, within a bounded number of steps, and the executing function receives exactly the payload bytes it was submitted with.",
     ["schedules", "inputs", "configurations"], "for every number of workers and submitting threads, every interleaving (including spurious wake-ups and stalled threads) and every job payload",
     "The unit tests start a handful of jobs once and wait; a lost wake-up, a double pop or a job stranded behind a miscounted worker shows only in particular interleavings.",
     ["include/edyn/parallel/job_dispatcher.hpp", "src/edyn/parallel/job_dispatcher.cpp", "include/edyn/parallel/worker.hpp", "src/edyn/parallel/job_queue.cpp", "include/edyn/parallel/job.hpp"],
     [("choice of the least loaded worker and hand-over to its queue", "src/edyn/parallel/job_dispatcher.cpp: job_dispatcher::async"), ("blocking pop on a condition variable", "src/edyn/parallel/job_queue.cpp: job_queue::pop"), ("worker loop and pending counter", "include/edyn/parallel/worker.hpp: worker::run/size")],
     ["job bodies record (id, payload, thread); a latch waits for all of them"],
     "Seeded search over thread schedules of the real dispatcher, queues and workers; assumes sequentially consistent memory for execution, with weaker orderings reported by the happens-before race detector.")
prop("P02", "Starting and stopping the worker pool always terminates, leaking nothing",
     "Starting the job dispatcher brings up exactly the requested number of workers; stopping it at any moment, even before its threads have begun to run or while jobs execute, returns after the running jobs finish, leaves no thread behind and lets it be started again.",
     ["schedules", "histories", "configurations"], "for every sequence of start, submit and stop and every interleaving of the caller with worker threads that may be slow to start or stalled",
     "Tests stop an idle pool once; a stop that races with thread start-up or with a job being popped is never exercised.",
     ["include/edyn/parallel/job_dispatcher.hpp", "src/edyn/parallel/job_dispatcher.cpp", "include/edyn/parallel/worker.hpp", "src/edyn/parallel/job_queue.cpp"],
     [("running flag and a no-op job that unblocks the queue", "include/edyn/parallel/worker.hpp: worker::run/stop"), ("join of all workers", "src/edyn/parallel/job_dispatcher.cpp: job_dispatcher::stop")],
     ["number of live threads, return of stop(), jobs observed after stop()"],
     "Deadlock is exact in the simulator (no runnable thread and no pending timer); bounded by the explored start/submit/stop histories.")
prop("P03", "The job queue is a linearizable FIFO that wakes its waiters",
     "Concurrent pushes, blocking pops and non-blocking pops on one job queue and size queries on one job queue behave like some sequential order of the same operations on a first-in-first-out queue; a blocking pop returns only with a job, and as long as jobs remain no waiting thread stays blocked.",
     ["schedules", "histories"], "for every interleaving and history of pushes, pops, attempts and size queries by any number of threads, with spurious wake-ups",
     "Tests push and pop from one thread; ordering and wake-up under contention are properties of histories.",
     ["src/edyn/parallel/job_queue.cpp", "include/edyn/parallel/job_queue.hpp"],
     [("mutex protected deque with condition variable", "src/edyn/parallel/job_queue.cpp: push/pop/try_pop/size")],
     ["recorded invocation/response history checked for linearizability against a sequential FIFO queue"],
     "Complete linearizability check of every recorded history; the histories themselves are sampled by seeded search.")
prop("P04", "A parallel task covers its range once, and completes once, after all of it",
     "A task submitted over a range executes every index of that range exactly once, whether run asynchronously or in blocking form; its completion callback runs exactly once, only after every index has been processed, and the effects of all parts are visible to it; a blocking run returns only then. This includes ranges of size zero, ranges smaller than the worker count and tasks started from inside other tasks.",
     ["schedules", "inputs", "configurations"], "for every range size, worker count, nesting and interleaving of the parts and the completion",
     "Tests run one size on one machine; a miscounted part or a completion racing the last part depends on scheduling and on the remainder of the division.",
     ["src/edyn/context/task.cpp", "include/edyn/context/task.hpp", "include/edyn/context/task_util.hpp", "src/edyn/parallel/job_dispatcher.cpp"],
     [("splitting a range into jobs", "src/edyn/context/task.cpp: enqueue_task_default / enqueue_task_wait_default"), ("remaining-parts counter deciding the completion", "src/edyn/context/task.cpp: task_context")],
     ["per-index execution counters, order of completion relative to every index"],
     "Real task, dispatcher and queues under the simulated scheduler, with race detection on user data handed between parts and completion.")
prop("P05", "Messages between threads arrive exactly once, in order, untorn",
     "Every message sent to an existing named queue is delivered exactly once to the handler registered for its type when that queue is updated, on the updating thread, with its content and sender unchanged, and messages from one sender to one queue are delivered in the order they were sent; messages to unknown queues have no effect.",
     ["schedules", "histories"], "for every interleaving of senders, receivers, queue creation and queue removal",
     "Tests send a few messages between two threads and wait; loss or reordering needs a send racing an update or a clear.",
     ["include/edyn/parallel/message_dispatcher.hpp", "src/edyn/parallel/message_dispatcher.cpp", "include/edyn/parallel/message.hpp"],
     [("name to queue map under a reader/writer lock", "include/edyn/parallel/message_dispatcher.hpp: send/make_queue"), ("swap-out of pending messages", "include/edyn/parallel/message_dispatcher.hpp: message_queue::consume"), ("clearing at shutdown", "src/edyn/parallel/message_dispatcher.cpp: clear_queues")],
     ["per (sender, queue) delivery log compared with the send log"],
     "History check against the send log of every run; uses the stand-in for the ECS library's type-erased container and signals.")
prop("P06", "A completion counter releases its waiter exactly when all parties arrived",
     "A thread waiting on a counter set up for a number of parties is released only after every party has reported, is always released once they all have, and everything the parties did before reporting is visible to it, even if the counter is destroyed right after the wait returns.",
     ["schedules", "configurations"], "for every number of parties and every interleaving of reports, the wait and the destruction of the counter",
     "A test observes one schedule; a wake-up that is lost or a use after destruction needs the last reporter to be preempted at one particular point.",
     ["include/edyn/parallel/atomic_counter_sync.hpp"],
     [("count with mutex and condition variable", "include/edyn/parallel/atomic_counter_sync.hpp: decrement/wait")],
     ["number of reports at the moment wait returns; memory accesses after destruction"],
     "Race, use-after-destruction and deadlock detection are exact per execution; executions are sampled.")
prop("P07", "Work handed between threads is published without data races",
     "Data written before it is handed to another thread through a job, a task, a message or a counter is fully visible to the code that receives it, with no data race, use after free or access outside its memory in the hand-over machinery itself.",
     ["schedules"], "for every interleaving of the handing and receiving threads, under the C++ memory model",
     "On the test machine a missing ordering is invisible: it needs a weakly ordered processor or a compiler that uses the freedom, so no sample of executions settles it.",
     ["include/edyn/parallel/job_dispatcher.hpp", "include/edyn/parallel/worker.hpp", "src/edyn/context/task.cpp", "include/edyn/parallel/message_dispatcher.hpp", "include/edyn/parallel/atomic_counter_sync.hpp"],
     [("mutex/condition variable hand-over", "src/edyn/parallel/job_queue.cpp"), ("atomic part counter", "src/edyn/context/task.cpp"), ("swap under lock", "include/edyn/parallel/message_dispatcher.hpp: message_queue")],
     ["happens-before clocks over every memory access of the compiled code"],
     "Vector-clock race detection over instrumented memory accesses in each simulated execution; code that is not reached is not judged.")
prop("P09", "Clocks never run backwards and delays are never cut short",
     "The millisecond clock, the performance counter and the performance time never decrease and advance by the time that really passed, regardless of changes to the system's wall clock; a delay returns no earlier than requested even when its sleep is interrupted by signals any number of times, and not noticeably later.",
     ["inputs", "fault_sequences", "schedules"], "for every sequence of clock readings and delays from any thread, every wall-clock change, every signal interruption and with or without a monotonic clock source",
     "Tests cannot set the wall clock, interrupt sleeps at chosen points or let weeks pass.",
     ["src/edyn/time/unix/time.cpp", "src/edyn/time/common/time.cpp", "include/edyn/time/time.hpp"],
     [("monotonic clock selection with fallback", "src/edyn/time/unix/time.cpp: time_start_info"), ("restarted sleep", "src/edyn/time/unix/time.cpp: delay")],
     ["values returned by the clocks against the simulator's true time; true time before and after a delay"],
     "Reference is the simulator's own time. Wall-clock jumps are not injected where the platform offers no monotonic clock, since the library documents no defence there. Covers less than 49.7 days from start, the range of the 32-bit millisecond clock.")
exec(open(os.path.join(HERE, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props_more.py")) else None

def main():
    ids = sorted(P, key=lambda p: p["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in ids:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
            if p["state"]: a["state"] = p["state"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "true",
         "hooks": {"guard": "EDYN_VERIF_SIM", "enable": "no hook is needed in /repo: the simulator interposes the C library and the compiler's instrumentation at link time (check.py)", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"], "technique": "deterministic simulation with fault injection (seeded schedule/fault search, replayable)", "level": "exploration", "level_note": p["note"]} for p in ids if not p["na"]],
         "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in ids if p["na"]]}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__": main()
