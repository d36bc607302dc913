"""Writes /verif/properties.jsonl and /verif/MANIFEST.json. Properties whose check does not exist are left out."""
import json
import os
import importlib
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "rocketry/"
P = []


def prop(id, title, statement, over, quant, why, files, mech, level_note, technique, observe_at=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  level_note=level_note, technique=technique, observe_at=list(observe_at)))


prop("P01", "An instant is in a calendar period exactly when the calendar says so",
     "For every period of a second, minute, hour, day, week, month or year - the whole unit, between two points, after, before, on one point, or starting from a point - an instant belongs to "
     "the period if and only if the wall clock and the calendar say it does. Points can be given as numbers, texts or names, windows may wrap over the end of the unit, and short months and leap years are respected.",
     ["inputs"], "every anchored period x every instant", "The tests list a few dozen instants per period; the edges (first and last instant, wrap, month ends, leap years) are a product of period forms and instants.",
     [T + "core/time/anchor.py", T + "time/interval.py", T + "time/construct.py"], [("AnchoredInterval.__contains__", T + "core/time/anchor.py"), ("anchor_str/anchor_int", T + "time/interval.py")],
     "random periods probed at and beside every window edge against an independent calendar enumeration", "runtime oracle: calendar reference model")
prop("P02", "Rolling a calendar period gives the right next and previous window",
     "For every anchored period and instant, rolling forward gives the rest of the current window or else the whole next window, and rolling back gives the current window so far or else the whole previous one. "
     "No window is skipped, repeated, or given a wrong length, also when months or years have different lengths.",
     ["inputs", "histories"], "every anchored period x every instant x chains of rolls", "Tests roll a handful of dates once.",
     [T + "core/time/anchor.py", T + "time/interval.py"], [("rollforward/rollback", T + "core/time/anchor.py"), ("next/prev start and end", T + "core/time/anchor.py")],
     "window by window comparison with calendar enumeration, chains of rolls", "runtime oracle: calendar reference model")
prop("P03", "Periods combined with and/or behave as set intersection and union",
     "An instant is in a combination of periods exactly when and/or over the members says so. Rolling a combination forward or back gives the nearest stretch of time that lies in the combined set, and it always returns.",
     ["inputs"], "every tree of & and | over periods x every instant", "Tests combine two or three fixed periods.",
     [T + "core/time/base.py"], [("All/Any", T + "core/time/base.py")],
     "random trees compared with pointwise logic and enumeration of the combined set; 1 us tolerance at member edges", "runtime oracle: set algebra over calendar reference")
prop("P04", "Crontab expressions mean what crontab says",
     "A cron expression covers exactly the minutes that crontab rules give (values, lists, ranges, steps, names, and the either-day rule when both day fields are set). A task scheduled with cron starts once for each such minute and never in others.",
     ["inputs", "schedules"], "every expression x every minute", "Tests use about 60 expressions at single instants.",
     [T + "time/cron.py", T + "core/time/anchor.py", T + "conditions/api.py"], [("Crontab", T + "time/cron.py"), ("cron()", T + "conditions/api.py")],
     "independent crontab evaluator; membership, rolls and simulated schedules", "runtime oracle: independent crontab evaluator")
prop("P05", "Duration texts and sliding windows measure exactly the time they say",
     "A duration text such as '1 day 2.5 hours 10:30:00' is the sum of its parts in any order, spelling, sign and separator. A sliding window of a duration covers exactly that long before (or after) the current moment, edges included.",
     ["inputs"], "every duration text, every window and instant", "Tests list some thirty texts.",
     [T + "pybox/time/convert.py", T + "time/delta.py", T + "core/time/base.py"], [("to_timedelta", T + "pybox/time/convert.py"), ("TimeDelta", T + "core/time/base.py")],
     "generated texts against exact arithmetic; windows probed at the edges", "runtime oracle: exact rational arithmetic")
prop("P06", "Condition logic is Boolean logic and observing never changes a condition",
     "Any combination of conditions with and, or, not - and comparisons of measured values - is true exactly when Boolean logic over its parts says so. Building conditions from other conditions or observing them never changes what the originals mean.",
     ["inputs", "histories"], "every tree of conditions x every truth assignment x observation order", "Tests use trees of depth one or two with constants.",
     [T + "core/condition/base.py", T + "conditions/func.py"], [("All/Any/Not", T + "core/condition/base.py"), ("BaseComparable", T + "core/condition/base.py")],
     "random trees with leaves flipped between observations", "runtime monitor: Boolean reference over observed leaves")
prop("P07", "A condition sentence means the same as the condition built in code",
     "Every documented condition sentence observes the same truth as the condition built with the Python API, whatever the values and task names in it. Sentences combined with ~, &, | and parentheses follow the usual precedence regardless of spacing.",
     ["inputs", "histories"], "every sentence, values, nesting, and session state", "Tests compare the parsed objects of fixed sentences and never their truth under a history.",
     [T + "parse/", T + "conditions/api.py", T + "conds/__init__.py"], [("parse_condition", T + "parse/condition.py"), ("parsers", T + "parse/_setup_cond_parsers.py")],
     "text and API built side by side and observed in running sessions with random histories", "differential runtime monitor")
prop("P08", "Task status conditions count what is in the log",
     "A condition on a task having started, succeeded, failed, finished, been terminated or inacted - in a period and with a comparison of the count - is true exactly when the number of such records of that task in the period compares so. "
     "It is so after a restart, while tasks run, and both with the fast status cache and when statuses are always read from the log.",
     ["histories", "configurations"], "every log history x period x comparison x instant", "Tests seed a handful of histories.",
     [T + "conditions/task/task.py", T + "conditions/task/utils.py", T + "core/task.py"], [("TaskStatusMixin", T + "conditions/task/utils.py")],
     "counting reference over the recorded log", "online monitor: counting reference over recorded log")
prop("P09", "A task scheduled for a period runs once in every window and never outside",
     "A task with a schedule such as daily, weekly on some day, hourly between two points, or start-based variants starts on the first scheduler cycle inside a window in which it has not yet run, and does not start otherwise. "
     "This holds over any outcomes, long runs, gaps, restarts, earlier logs and crashes.",
     ["schedules", "histories", "crash_points"], "every period x every sequence of cycle instants, outcomes and restarts", "Tests check one or two hard-coded days.",
     [T + "conditions/task/task.py", T + "conditions/api.py", T + "core/schedule.py"], [("TaskExecutable", T + "conditions/task/task.py"), ("TaskRunnable", T + "conditions/task/task.py")],
     "virtual-time schedules; each cycle is judged start-iff-due", "online trace monitor: start iff due")
prop("P10", "Intervals and retries: a task runs when and only when its interval has passed",
     "A task on every(interval) - based on its latest run, success, failure or finish - starts on the first cycle at which the interval has passed since that event (or it never happened), never earlier. "
     "A task with retries is retried only after failing and at most the given number of times in a row.",
     ["schedules", "histories", "crash_points"], "every interval x sequence of instants, outcomes and restarts", "Tests sample a few pairs of instants.",
     [T + "conditions/api.py", T + "conditions/meta.py", T + "conditions/task/task.py"], [("every()", T + "conditions/api.py"), ("Retry", T + "conditions/task/task.py")],
     "virtual-time schedules; each cycle is judged start-iff-due", "online trace monitor: start iff due")
prop("P11", "A downstream task runs once per completed upstream event",
     "A task set to run after the success, failure or finish of one, any or all other tasks starts only if those have ended so since its own latest start, and it does start on the next cycle when they have.",
     ["schedules", "histories"], "every dependency graph x order of outcomes", "Tests run a chain of two or three tasks.",
     [T + "conditions/task/utils.py", T + "conditions/task/task.py"], [("DependMixin", T + "conditions/task/utils.py")],
     "random pipelines; every start and every cycle is judged by the log", "online trace monitor over the task log")
prop("P12", "Running conditions agree with the runs that are really alive",
     "Conditions on a task running - also for more or less than some time, or on the number of simultaneous runs - are true exactly when runs that have started and not ended say so. "
     "It is so from live runs and from the log alone, and dead runs of a crashed scheduler are not counted.",
     ["schedules", "histories", "configurations"], "every set of overlapping runs x instant x mode", "Tests have one run at a time.",
     [T + "conditions/task/task.py", T + "core/task.py"], [("TaskRunning", T + "conditions/task/task.py")],
     "compared with open runs in the log at each cycle", "online monitor: open-run reference")
prop("P13", "Every run is logged once as started and once as ended with its real outcome",
     "For each run of a task on any execution type there is exactly one start record and later exactly one end record, with the run's id, and the end tells what really happened: success, fail (with its traceback), inaction or termination. "
     "Runs that overlap or finish in any order, and runs that end in unusual ways (cancelled, exiting, interrupted, their arguments failing), are all accounted for, and there are no records of runs that did not take place.",
     ["schedules", "fault_sequences"], "every interleaving of overlapping runs x outcomes x execution types", "Tests run one task at a time to its end.",
     [T + "core/task.py", T + "core/schedule.py", T + "log/handlers.py"], [("Task.start_async/_set_status", T + "core/task.py"), ("Scheduler.handle_logs", T + "core/schedule.py")],
     "gated runs in random interleavings, conservation of tokens over invocations and records", "offline conservation checker over recorded events")
prop("P14", "A task never overlaps itself unless allowed, and processes stay within the limit",
     "Unless simultaneous runs are allowed for the task (or by the session when the task does not say), a task never has two runs alive at a time, on any execution type. "
     "The number of task processes alive never exceeds the maximum process count, and within these limits a waiting run is started on the next cycle.",
     ["schedules", "configurations"], "every interleaving of runs x settings", "Tests sample one or two overlapping runs.",
     [T + "core/schedule.py", T + "core/task.py"], [("is_task_runnable", T + "core/schedule.py"), ("has_free_processors", T + "core/schedule.py")],
     "overlap counters inside the task bodies (also child processes)", "online monitor: overlap counters in task bodies")
prop("P15", "The return value of a task is what its latest successful run returned",
     "After a run of a task has succeeded, the return value kept for the task is exactly what that run returned, on every execution type and when many runs end at the same time; runs that fail do not change it. "
     "A task that asks for the return value of another gets it (or the default if there is none) when it starts.",
     ["schedules", "inputs"], "every interleaving of runs x returned values x execution types", "Tests return one value from one task.",
     [T + "core/task.py", T + "core/schedule.py", T + "args/builtin.py"], [("_handle_return", T + "core/task.py"), ("Return", T + "args/builtin.py")],
     "values observed per cycle against the log order", "online monitor over recorded log and returns")
prop("P16", "Task functions get exactly the arguments they are entitled to",
     "A task function receives, for each of its parameters, the value given for the run, else the one given to the task, else the one declared in its signature, else the session parameter of that name, else its own default, and nothing it did not ask for. "
     "Arguments that are computed (functions, nested arguments, references to session parameters, return values, the task, the session, environment) are resolved to the right value on every execution type, and running tasks does not change the stored parameters.",
     ["inputs", "configurations"], "every signature x sources of values x execution types", "Tests cover each argument type alone, mostly on one execution type.",
     [T + "core/task.py", T + "core/parameters/", T + "args/builtin.py", T + "tasks/func.py"], [("get_extra_params/_get_direct_params", T + "core/task.py"), ("Parameters", T + "core/parameters/parameters.py"), ("FuncTask.prefilter_params", T + "tasks/func.py")],
     "random signatures and sources compared with a resolution reference", "runtime oracle: resolution reference model")
prop("P17", "Manually asked runs take place exactly once, in order, with their parameters",
     "Each call to run a task manually causes exactly one run, in the order of the calls, with the parameters of that call and not those of another, even if the task is disabled, its start condition is false or it is running at the time. "
     "A task without asked runs is not run because of them.",
     ["schedules", "histories"], "every sequence of calls x instants x task states", "Tests ask one or two runs.",
     [T + "core/task.py", T + "core/schedule.py"], [("Task.run/batches", T + "core/task.py")],
     "token-carrying runs checked against the order of calls", "offline FIFO/exactly-once checker")
prop("P18", "A run is terminated when and only when it should be",
     "A run that has been alive longer than its timeout (the task's, else the session's), or whose end condition has become true, or that has been asked to terminate, is terminated within a scheduler cycle and logged as terminated; no other run is terminated. "
     "Permanent tasks have no timeout, and a termination does not affect later runs or other tasks.",
     ["schedules", "fault_sequences"], "every interleaving of runs, timeouts, end conditions and requests", "Tests terminate one task at a time.",
     [T + "core/task.py", T + "core/schedule.py"], [("_check_termination", T + "core/task.py"), ("TaskRun.terminate", T + "core/task.py")],
     "virtual-time overlapping runs; due and actual terminations compared at each cycle", "online trace monitor: terminated iff due")
prop("P19", "One failing task, condition or parameter does not disturb the others",
     "A task that fails - in its body, when its parameters are formed, or when its condition is checked - is recorded as failed (or as not runnable) and all other tasks keep being scheduled as if nothing had happened, when such errors are set to be silenced; if not silenced, an error that reaches the scheduler itself (in a condition, or in forming the parameters before the task is handed over) stops it with that error after closing down its tasks properly. "
     "A task body's own failure never stops the scheduler.",
     ["fault_sequences", "configurations"], "every placement of faults x settings x execution types", "Tests inject one fault into one task.",
     [T + "core/schedule.py", T + "core/task.py"], [("run_task/check_task_cond", T + "core/schedule.py"), ("start_async", T + "core/task.py")],
     "fault injection at random places beside healthy control tasks", "fault injection with online monitor")
prop("P20", "Shutting down leaves nothing running and loses no record",
     "When the scheduler is asked to shut down - by request, by its shut condition, by an exception (also one that exits the program), by being cancelled or by a forced or instant shut down - it ends after the current cycle with no task left alive and every run that was started has its end in the log. "
     "A graceful shut down lets the running tasks finish (and their timeouts and terminations apply), while a forced or instant one (also one asked while already waiting for the tasks) terminates them.",
     ["schedules", "fault_sequences", "configurations"], "every state of running tasks x way and moment of shut down", "Tests shut down with one running task.",
     [T + "core/schedule.py", T + "session.py"], [("shut_down/_shut_down_tasks", T + "core/schedule.py"), ("Session.shut_down", T + "session.py")],
     "random shut downs over gated runs of all execution types", "online and offline trace monitors")
prop("P21", "Each cycle considers every task, in priority order, respecting its switches",
     "On every cycle each ordinary task that may run is started, higher priority before lower; disabled tasks and all tasks while the scheduler is on hold are not. "
     "Startup tasks run once before the first cycle, shutdown tasks once when shutting down, and neither runs in the ordinary cycles.",
     ["schedules", "configurations"], "every set of tasks, switches and instants of switching", "Tests use one to three tasks.",
     [T + "core/schedule.py"], [("run_cycle/startup/run_shutdown_tasks", T + "core/schedule.py")],
     "random task sets with random switching judged cycle by cycle", "online trace monitor")
prop("P22", "After a restart tasks know from the log what had happened",
     "A scheduler started over an existing log knows for each task its latest status and the times of its latest run, success, failure and so on exactly as the log tells. "
     "A task whose latest record is the start of a run is recorded as crashed once, and any other task is not.",
     ["crash_points", "histories"], "every log prefix (crash point) x restart", "Tests seed single records.",
     [T + "core/task.py", T + "core/schedule.py"], [("set_cached", T + "core/task.py")],
     "logs cut at every record and restarted", "crash-point exploration with log reference")
prop("P23", "Task statuses and times always agree with the log",
     "At any moment between cycles the status of a task and its latest run, success, fail, termination, inaction and crash times equal those of its records in the log, whichever way statuses are looked up. "
     "Every end record carries the start of its own run, its end and the time between them.",
     ["schedules", "histories", "configurations"], "every interleaving of runs x mode", "Tests look at one run.",
     [T + "core/task.py", T + "log/log_record.py"], [("_set_status/log_record", T + "core/task.py")],
     "compared with the log after every cycle", "online monitor: status against log")
prop("P24", "Hooks run exactly once around what they hook, in order",
     "Every registered hook of startup, cycle, shutdown, task creation and task execution is called exactly once per such event, in registration order, its part after the yield after the event and with the outcome of it, on every execution type. "
     "Hooks get the task, session and other arguments they ask for.",
     ["schedules", "configurations"], "every set of hooks x events x outcomes", "Tests use one hook of each kind.",
     [T + "core/hook.py", T + "session.py", T + "core/task.py", T + "core/schedule.py"], [("_Hooker", T + "core/hook.py")],
     "hook event traces checked against a bracket grammar", "offline trace grammar checker")
prop("P25", "The task registry and groups keep names unique and settings intact",
     "Tasks are found by their name or object, or by the function they decorate unless renamed, exactly while they are in the session, names are never shared, and a rejected or ignored creation changes nothing. "
     "Including a group adds each of its tasks with the prefix, the group's condition on top of the task's own, the execution the task or else the group or else the session says, and the group's parameters.",
     ["inputs", "histories"], "every sequence of additions, removals and groups", "Tests do one addition.",
     [T + "session.py", T + "application.py", T + "core/task.py"], [("add_task/remove_task/__getitem__", T + "session.py"), ("include_grouper", T + "application.py")],
     "model-based random operation sequences", "runtime oracle: registry model")
prop("P26", "Running selected tasks runs just them and leaves the session as it was",
     "Running chosen tasks manually through the session runs each of them exactly once (or, when told to obey conditions, only if its condition allows) and no other ordinary task unless it was already set to run, with the given execution type. "
     "Afterwards every task's switches, execution, condition and the session's shut condition are as before.",
     ["configurations", "histories"], "every choice of tasks, options, and states", "Tests run one or two tasks.",
     [T + "session.py"], [("Session.run", T + "session.py")],
     "random selections compared before/after", "runtime oracle: before/after comparison")
prop("P27", "Scheduler, parameter and custom conditions tell the truth when asked",
     "Conditions on the scheduler's cycles and up-time, on session parameters, on the current time being in a period, and custom conditions used as objects or through their own sentences are observed with the session and task in question and give exactly the truth at that moment. "
     "Each custom condition gets its own arguments, however many instances of it exist.",
     ["inputs", "histories"], "every condition, arguments, instants", "Tests check each alone at one instant.",
     [T + "conditions/scheduler.py", T + "conditions/parameter.py", T + "conditions/func.py", T + "conditions/time.py", T + "conditions/task/"], [("SchedulerCycles/SchedulerStarted", T + "conditions/scheduler.py"), ("ParamExists", T + "conditions/parameter.py"), ("FuncCond", T + "conditions/func.py"), ("IsPeriod", T + "conditions/time.py")],
     "observed on each cycle and compared with a reference", "online monitor with references")
prop("P28", "Command and code tasks do what they are given and report it truthfully",
     "A command task runs the given command with its parameters as arguments, in order and unchanged, succeeds if and only if the command exits with zero and returns its output; otherwise it fails with the error output. "
     "A code task runs the given code with its parameters as variables and returns its output variable, and a function given by file path runs the function from that file as it is at the time.",
     ["inputs"], "every command, arguments, exit code, code and parameters", "Tests run a few fixed commands.",
     [T + "tasks/command.py", T + "tasks/code.py", T + "tasks/func.py"], [("CommandTask.execute", T + "tasks/command.py"), ("CodeTask.execute", T + "tasks/code.py"), ("FuncTask.get_func", T + "tasks/func.py")],
     "a recording command compared with what was asked", "runtime oracle: recorded invocations")
prop("P29", "Scheduling does not depend on where the log is kept",
     "The same tasks, schedule and outcomes give the same runs, statuses and records whether the task log is kept in memory, in a CSV file or in an SQL database and with whichever record model, and records read back equal what was logged.",
     ["configurations", "histories"], "every history x log store", "Tests use mostly the memory store.",
     [T + "log/", T + "core/log/adapter.py", T + "conditions/task/utils.py"], [("TaskAdapter", T + "core/log/adapter.py"), ("log records", T + "log/log_record.py")],
     "the same virtual-time scenario replayed on each store, traces compared", "differential runtime monitor across stores")
prop("P30", "Schedules follow the session's time zone",
     "With a time zone set, periods and schedules are judged by the wall clock of that zone - as if the session lived there - and statuses and times given out are of the same instants in that zone. "
     "Without one they follow the local time of the computer.",
     ["inputs", "configurations"], "every zone offset x period x instant", "Tests use one fixed zone at one instant.",
     [T + "session.py", T + "conditions/", T + "core/time/"], [("Session._format_timestamp", T + "session.py"), ("IsPeriod", T + "conditions/time.py")],
     "the same scenario in shifted zones compared with the reference", "runtime oracle: shifted calendar reference")
prop("P31", "Custom task classes are called back with what happened to each run",
     "Each run of a user's own task class calls its success, failure and finish methods exactly once, as the run ended and with its return value, error or status, on every execution type; "
     "an error in the success method makes the run fail and one in the failure method changes nothing. The parameter filters of the class decide which session parameters its runs get.",
     ["inputs", "histories"], "every outcome x execution x error in a callback", "Tests call the callbacks of one class on one outcome.",
     [T + "core/task.py"], [("Task._run_as_main", T + "core/task.py"), ("Task.prefilter_params", T + "core/task.py")],
     "classes of every make run in a session, calls and parameters compared with the outcome", "runtime monitor: callbacks against outcomes")
prop("P32", "Reading the log gives exactly the records that were logged",
     "Queries of the log of a task or of the session give exactly the matching records, in the order they were logged. When the repository of the log is replaced, "
     "new records go to the new one only and the statuses follow what it holds; other handlers of the logger get every record once.",
     ["inputs", "histories"], "every query x history x repository", "Tests query fixed short logs.",
     [T + "core/log/adapter.py", T + "log/", T + "session.py"], [("TaskAdapter.get_records", T + "core/log/adapter.py"), ("Session.get_task_log", T + "session.py")],
     "queries during and between runs compared with a model of the repositories", "runtime oracle: model of the log")
prop("P33", "A restart starts the scheduling again exactly once, after closing down",
     "A restart asked during scheduling closes the scheduler down as any shutdown (tasks ended or waited for, shutdown tasks and hooks run) and then starts it again exactly once, however many asked, "
     "with the same program, arguments and environment, in the process or in a new one as configured. The log over the lives is that of one uninterrupted history.",
     ["schedules", "configurations", "histories"], "every way of restarting x asker x tasks running", "Tests only restart in the way made for tests.",
     [T + "core/schedule.py", T + "session.py"], [("Scheduler._restart", T + "core/schedule.py"), ("Session.restart", T + "session.py")],
     "real programs in a scratch folder restart themselves and record events, judged afterwards", "offline trace checker over the events of real programs")
prop("P34", "A failing log store harms only the records it refuses",
     "When writing a record of a run fails and such errors are silenced (silence_task_logging), the scheduler goes on: the other tasks are run and logged as if nothing had happened, also all other records are kept, "
     "each run still calls its function at most once and gets at most one end, and the task whose end could not be logged is left as failed (not as running) and can be run again. "
     "When not silenced, the scheduler stops with the logging error after closing down all of its tasks, whichever execution the task has and whichever record was refused.",
     ["fault_sequences", "schedules", "configurations"], "every record refused x execution x moment x silenced or not", "Tests let the log fail for one run of one task.",
     [T + "core/task.py", T + "core/schedule.py"], [("Task._set_status/log_record", T + "core/task.py"), ("Scheduler._log_task/check_thread_errors", T + "core/schedule.py")],
     "a handler that refuses chosen records in front of the log, bodies and attempts compared with the records kept", "fault injection with a runtime accounting monitor")


def main():
    have = {p["id"] for p in P if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe_at"] or ["public API, task log, bodies of the tasks"], "hook_needed": None},
            }) + "\n")
    manifest = {
        "version": 1, "setup_cmd": "true",
        "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks observe through the public API, the task log and the bodies of the tasks", "source_commits": []},
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"bash /verif/run.sh {p['id']} --tier quick",
            "thorough_cmd": f"bash /verif/run.sh {p['id']} --tier thorough",
            "technique": "runtime monitoring: " + p["technique"],
            "level": "exploration",
            "level_note": p["level_note"] + "; the verdict covers the executions explored (see the evidence for what was observed), pseudo-random from VERIF_SEED",
        } for p in P if p["id"] in have],
        "not_applicable": [{"property": p["id"], "reason": "the check is not built yet"} for p in P if p["id"] not in have],
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(have), "checks")


main()
