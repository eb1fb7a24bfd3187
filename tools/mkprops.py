import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
H="src/handlers/broker_handler.cpp"; S="src/queuing/single_queue_manager.h"; M="src/queuing/multi_queue_manager.cpp"; W="src/worker.cpp"; R="src/reactor/reactor.cpp"
HIST="every history of client submissions, worker registrations, completions (OK / FAILED / internal error), pings, progress messages, stray or repeated messages, elapsed-time ticks and freezes, for both queue managers and every setting of liveness, ping interval and failure limit"

p("C01","An accepted job is never lost",
 "Once the broker has answered a submission with accept, the job is at every later moment either waiting in the broker, being processed by a registered worker, or already finally reported to the frontend, whatever completions, failures, worker deaths, re-registrations, stray or repeated messages follow; the number of jobs the broker says are queued is exactly the number that are waiting. If the registered workers keep finishing the jobs they are given, every accepted job is eventually dispatched and reported, and if all workers fall silent every accepted job is eventually reported.",
 ["histories","configurations"],HIST,
 "The tests replay a handful of 1-3 step histories with one or two workers, almost only on the multi-queue manager; loss needs longer interleavings of failure, queueing and worker death.",
 [H,S,M],[("requests of a dead worker are collected and re-enqueued or reported",H+": process_timer, reassign_request"),("queue managers hold each request in exactly one place",S+", "+M),("a freed worker pulls the next request",H+": process_worker_done")],
 ["messages sent to workers, clients and status notifier","queued request count"],
 [("waiting jobs","accepted jobs not yet sent to a worker",S+": jobs_ / "+M+": queues_"),("current job of each worker","job a worker is processing",S+": worker_jobs_ / "+M+": current_requests_")])

p("C02","Exactly one final report per job, matching its outcome",
 "For every accepted job, and for every job a registering worker claims to be running, the frontend gets exactly one final report: OK exactly when the worker processing the job reports it done OK; FAILED exactly when that worker reports it FAILED, when an internal error or the loss of the worker leaves it without attempts (a claimed job has none), or when no registered worker can process it any more. The report names that job and passes on the failure text the worker gave. Rejected submissions and completion messages that are malformed, name another job, or come from a worker that is unknown or idle produce no report and change nothing.",
 ["histories","inputs"],HIST,
 "Tests check single reports after single events; double, missing or wrong reports appear after retries, deaths of workers with queues, late or repeated completions.",
 [H,"src/notifier/reactor_status_notifier.cpp"],[("completion is matched against the worker's current job",H+": process_worker_done"),("failure limit / orphan / unassignable handling",H+": process_timer, check_failure_count"),("report construction","src/notifier/reactor_status_notifier.cpp")],
 ["messages to the status notifier"])

p("C03","Jobs run only on capable workers and are refused only if none exists",
 "A job is only ever sent to a currently registered worker whose latest announced hardware group and headers satisfy every required header of the job, whether on first dispatch, from a queue or on a retry. An unfrozen broker accepts a well-formed submission if and only if some registered worker satisfies all its headers, and gives up an accepted job for lack of a worker only when no registered worker satisfies them.",
 ["histories","inputs"],HIST+"; every assignment of hardware groups, environments, thread counts and other headers to workers and jobs",
 "Tests use one or two workers with one header; wrong routing needs heterogeneous workers, queues and deaths.",
 [H,S,M,W],[("capability check before every assignment",S+": select, assign_request, is_request_assignable; "+M+": enqueue_request"),("header parsing",H+": process_client_eval, process_worker_init"),("capability replacement on re-registration",H+": process_worker_init")],
 ["eval messages to workers","accept / reject replies","FAILED reports"])

p("C04","A worker never holds two jobs at once",
 "The broker never sends a job to a worker that is still processing another job: between two jobs sent to the same worker, that worker has reported the first one finished (OK, FAILED or internal error) or has been dropped or re-registered with other capabilities. A job the worker claimed when registering counts as being processed, and the broker never has one accepted job being processed by two registered workers at a time.",
 ["histories"],HIST,
 "Exclusivity must survive any interleaving of completions, retries and registrations; tests look at one dispatch at a time.",
 [H,S,M],[("current request slot per worker",S+": worker_jobs_; "+M+": current_requests_"),("duplicate registration of an identity",H+": process_worker_init")],
 ["eval messages to workers"])

p("C05","No capable worker idles while a job it could run waits",
 "With the single-queue manager, once an event has been handled there is no waiting job that some idle registered worker could process, so a freed or newly registered worker is handed a waiting job it can process at once. With the multi-queue manager every waiting job is queued behind some busy registered worker able to process it, and a worker that ends its job in whatever way (OK, FAILED, internal error, claimed job) is at once sent the next job queued for it.",
 ["histories"],HIST,
 "A stuck queue shows only after particular sequences (internal error reassigned elsewhere, end of a claimed job, death of a neighbour) that no test contains.",
 [H,S,M],[("next request is assigned when a worker becomes free",H+": process_worker_done"),("waiting requests are offered to a new worker",S+": add_worker")],
 ["eval messages to workers","queued request count"])

p("C06","Waiting jobs are served first come, first served",
 "With the single-queue manager, a worker that becomes available is given, of the waiting jobs it can process, the one that has been waiting longest, even if many jobs arrive within the same clock tick or the system clock is adjusted; a job put back after the loss of its worker queues up as if it had just arrived, and a job retried after an internal error may start at once. With the multi-queue manager, jobs queued behind a worker are sent to it in the order in which they were queued, and none of them is overtaken by a newly submitted job.",
 ["histories","inputs"],HIST+"; arrival times that coincide, and system clock steps",
 "Tests queue at most two jobs; ties in arrival time, backlogs of dozens of jobs and clock steps are never sampled.",
 [S,M,H],[("arrival stamp and ordered selection",S+": enqueue_request, assign_request, fcfs_job_comparator"),("FIFO queue per worker",M)],
 ["order of eval messages to each worker"])

p("C07","The multi-queue manager deals jobs to capable workers in rotation",
 "With the multi-queue manager a job goes to the capable registered worker that was least recently chosen (a worker never chosen yet comes before all others), whether that worker is idle or busy: it is sent at once if the worker is idle and is queued behind that worker's jobs otherwise, and it stays with that worker until the job is finished, fails or the worker is lost. The order in which jobs of a lost worker are handed back is the job in progress first, then its queue in order.",
 ["histories"],"every sequence of queue-manager operations (register, enqueue, finish, cancel, assign, terminate) over heterogeneous workers",
 "The only test of balancing enqueues two jobs for two equal workers.",
 [M,"src/queuing/multi_queue_manager.h","src/queuing/queue_manager_interface.h"],[("rotating worker list",M+": enqueue_request, add_worker, worker_terminated")],
 ["queue manager return values","eval messages to workers"])

p("C08","Silent workers are dropped in time and talking workers are kept",
 "A registered worker is dropped if and only if it has sent nothing for long enough: never before the elapsed time reported since its last message of any kind (registration included) reaches max_liveness x ping_interval, and at the latest once it exceeds max_liveness x (ping_interval + longest single tick). A dropped worker is unknown afterwards: it is sent no jobs, its completions are ignored and its next ping is answered with a request to introduce itself.",
 ["histories","configurations"],"every sequence of ticks of any length and worker messages, every max_liveness >= 1 and ping_interval",
 "Tests preset the liveness counter to 1 and send one tick; the counter, its reset and its starting value over a history are not exercised.",
 [H,"src/worker.cpp"],[("liveness counter and idle timer",H+": on_request, process_timer, process_worker_init")],
 ["set of registered workers","intro / pong replies"],[("liveness","remaining missed intervals","src/worker.h"),("worker_timers_","time since last message or decrement","src/handlers/broker_handler.h")])

p("C09","Failed attempts are retried up to the configured limit, then reported",
 "For every failure limit N >= 1, a job whose attempt ends with an internal error or the loss of the worker processing it is put back for another attempt (as long as some registered worker can process it) until it has failed N times, and is then reported FAILED and never sent again; so a job is sent to workers at most N times. Waiting behind a worker that is lost does not count as a failed attempt, and a job whose worker reports it FAILED or OK, or that a worker claimed at registration, is never retried.",
 ["histories","configurations"],HIST,
 "Tests cover one failure below or at a preset counter; counting over several attempts on several workers with mixed causes is not reached.",
 [H],[("failure counter",H+": process_worker_done, process_timer, check_failure_count")],
 ["eval messages to workers","FAILED reports"])

p("C10","Job and progress frames pass through unchanged",
 "Every time a job is sent to a worker, first attempt or retry, the message is exactly 'eval', the job id and the data frames of the submission, byte for byte and in order including empty and binary frames, without its headers or metadata. A progress message from a worker, registered or not, reaches the monitor with exactly its frames after the command word, and such traffic alters no other message.",
 ["inputs","histories"],"every job id, header list, metadata and list of data frames over arbitrary bytes; every history of retries",
 "Tests send one or two short printable frames.",
 [H,"src/worker.h"],[("request data frames",  "src/worker.h: job_request_data"),("frame parsing and forwarding",H+": process_client_eval, process_worker_progress, send_request")],
 ["eval messages to workers","messages to the monitor"])

p("C11","Clients always get the right, complete reply, and freezing is absolute",
 "Every well-formed submission is answered to its sender with ack followed by exactly one accept or one reject with a reason, and accept exactly when the broker took the job over; no other event sends anything to clients. From the acknowledgement of a freeze until that of an unfreeze every submission is rejected and none is passed on, while jobs accepted earlier are processed as usual; freeze and unfreeze may be repeated in any order.",
 ["histories","inputs"],HIST+"; any number of clients",
 "One fixed sequence with a single freeze is tested, unfreeze never.",
 [H],[("replies and frozen flag",H+": process_client_eval, process_client_freeze, process_client_unfreeze")],
 ["messages to clients"])

p("C12","Worker registration state is what the worker last announced",
 "A ping is answered to its sender with pong if that worker is registered and with intro otherwise, and nothing else. After a registration message exactly one worker with that identity is registered, with the hardware group, headers and claimed job of that message; repeating it with the same hardware group and headers alters nothing, while announcing different capabilities replaces the old registration, tells the frontend about it, and hands the old registration's jobs over as if that worker had been lost. A worker that claimed a job is treated as busy with it until it reports that job or is dropped, and is not sent anything on registering.",
 ["histories","inputs"],HIST,
 "Tests register one worker once, or repeat an identical message; changed capabilities and claimed jobs with the single-queue manager are not tested.",
 [H,"src/worker_registry.cpp",S,M],[("registration",H+": process_worker_init, process_worker_ping"),("registry","src/worker_registry.cpp")],
 ["messages to workers","set of registered workers"])

p("C13","The monitor hears about every job the broker itself ends or restarts",
 "The monitor gets exactly these messages from the broker itself, each naming the job: FAILED when a submission is rejected for lack of a capable worker, FAILED when an accepted job, or one claimed by a lost worker, is ended because its worker was lost, no worker can process it or its attempts are used up, and ABORTED when the loss of a worker makes the broker put one of that worker's jobs back for processing elsewhere. Completions reported by workers and submissions refused because of a freeze add nothing.",
 ["histories"],HIST,
 "Tests check these messages one at a time in five fixed situations with the multi-queue manager.",
 [H],[("monitor notification",H+": notify_monitor, reassign_request, check_failure_count, process_timer")],
 ["messages to the monitor"])

p("C14","Runtime statistics tell the truth",
 "A statistics request is answered to its sender with one list of name/value pairs. Right after an elapsed-time tick queued-jobs, worker-count, idle-worker-count and jobs-in-progress equal the real numbers of waiting jobs, registered workers, workers without a job and workers with one; at any moment evaluated-jobs is the number of OK completions accepted, failed-jobs the number of FAILED and internal-error completions accepted, and is-frozen tells whether submissions are refused.",
 ["histories"],HIST,
 "No test asks for statistics.",
 [H],[("counters and snapshot",H+": process_timer, process_worker_done, process_client_get_runtime_stats")],
 ["reply to get-runtime-stats"])

p("C15","No message from a peer can crash or disturb the broker",
 "Whatever sequence of frames (at least one frame, any bytes, any lengths) arrives from any client or worker, the broker neither throws, crashes nor corrupts memory, never sends a message without frames, and keeps serving: a capable worker registering afterwards gets a job submitted afterwards and its completion is reported. Messages the protocol does not define (unknown commands, truncated or malformed ones, completions of jobs that are not the sender's) have no effect on what any other message produces.",
 ["inputs","histories"],"every sequence of arbitrary multi-frame messages interleaved with valid traffic, both queue managers",
 "The tests send only well-formed messages.",
 [H,W,"src/reactor/command_holder.cpp"],[("command dispatch and argument checks",H+": on_request, process_*"),("number parsing",W+": count_matcher")],
 ["absence of exceptions and sanitizer reports","outputs with and without the extra messages"])

p("C16","Capability matching means what the headers say",
 "A worker satisfies a header set exactly if it satisfies each header in it; it satisfies hwgroup if its (non-empty) group is one of the alternatives separated by '|', threads if the requested decimal number is at most one of its announced numbers (what is not a number matches nothing), and any other header if it announced that name with exactly that value among possibly several. The verdict does not depend on the order of headers on either side, and looking up a worker by headers or by identity in the set of registered workers returns one that matches whenever there is one and nothing otherwise.",
 ["inputs"],"every worker description and header set over arbitrary names and values, decimal thread counts, non-empty groups",
 "A dozen fixed examples are tested, with one thread count and three groups.",
 [W,"src/worker.h","src/worker_registry.cpp"],[("matchers",W+": multiple_string_matcher, count_matcher, check_header(s)"),("lookup","src/worker_registry.cpp")],
 ["result of the header check","result of registry lookup"])

p("C17","The reactor delivers every message once, intact and in order",
 "Every message received on a polled socket is passed exactly once to each handler, direct or asynchronous, subscribed to that socket and to no other, with its frames and sender intact and in the order received from that peer; every response a handler gives reaches the named peer on the named socket, or the handlers subscribed to the named event, exactly once, intact and in order (a handler called again from within its own response aside). However busy one socket is, the others and the responses of asynchronous handlers do not have to wait until it is empty. This holds from the moment a handler is added, however slow an asynchronous handler is and however many messages are outstanding, and stopping the reactor ends its loop, whenever it is requested, after asynchronous handlers have finished what was passed to them.",
 ["schedules","inputs","histories"],"every set of sockets, handlers, subscriptions and responses, every burst of messages, and any moment of adding handlers, sending and stopping",
 "The reactor tests are not part of the stable suite: they depend on sleeps and send one message or 100 equal ones.",
 [R,"src/reactor/reactor.h","src/reactor/router_socket_wrapper.cpp"],[("poll loop and dispatch",R+": start_loop, process_message, send_message"),("asynchronous handler thread and in-process socket",R+": asynchronous_handler_wrapper")],
 ["messages seen by handlers","messages received by peers"])

p("C18","Elapsed time is fully accounted for, whatever the load",
 "The reactor keeps telling all subscribed handlers about elapsed time, and the amounts it reports add up to the time that has really passed since it started, up to one pending loop turn and one millisecond, no matter how dense the traffic, how long handlers take or how short single loop turns are. It never reports negative time, also when the system clock is adjusted.",
 ["schedules","inputs"],"every pattern of message arrival, handler duration and clock adjustment",
 "The one timer test only checks that at most one message arrives in 200 ms, and is not in the stable suite.",
 [R],[("measurement of elapsed time around polling",R+": start_loop")],
 ["timer messages passed to handlers"])

p("C19","Messages on a router socket keep their boundaries and addressee",
 "Each message sent through a router socket wrapper arrives at the addressed connected peer, and only there, as exactly its list of frames, in the order sent; a message to a peer that is not connected, or without any frame, is dropped without affecting any other message. Each message a peer sends is received as one message with that peer's identity and exactly its frames.",
 ["inputs","histories"],"every sequence of sends and receives over several peers with arbitrary binary identities and frames, including empty frames, empty messages and unknown addressees",
 "No test covers the router socket wrapper.",
 ["src/reactor/router_socket_wrapper.cpp","src/reactor/socket_wrapper_base.cpp"],[("multi-part sending and receiving","src/reactor/router_socket_wrapper.cpp")],
 ["frames received by peers","messages returned by receive"])

p("C20","The frontend decodes exactly what the broker reported",
 "Every notification results in an HTTP POST to the configured address and port, below the path of its kind (and job id, if it has one), whose decoded path and form parameters equal the kind, id, status and message that were reported, for arbitrary text (ids '.' and '..' aside), with the configured credentials by basic authentication if there are any and none otherwise. Nothing else is requested, and a list of rejected jobs is reported one by one.",
 ["inputs","configurations"],"every job id, status and message text over arbitrary bytes, every user name and password",
 "No test covers notification over HTTP or the query construction.",
 ["src/helpers/curl.cpp","src/handlers/status_notifier_handler.cpp","src/notifier/reactor_status_notifier.cpp"],[("query construction and request","src/helpers/curl.cpp: get_http_query, curl_post"),("URL construction","src/handlers/status_notifier_handler.cpp")],
 ["requests received by an HTTP server"])

p("C21","A notification is repeated until confirmed, within limits",
 "A notification is sent until the frontend confirms it with a success status (2xx), with unchanged content, pausing longer before each further attempt and giving up after four attempts; once confirmed it is not sent again. Whatever the frontend does (refusing or breaking connections, error statuses, slow or long answers; redirecting or never answering aside), handling a notification never raises an error and later notifications are sent as usual, in the order they were raised.",
 ["fault_sequences","inputs"],"every sequence of failures and successes of consecutive HTTP attempts over sequences of notifications",
 "No test covers it.",
 ["src/handlers/status_notifier_handler.cpp","src/helpers/curl.cpp"],[("retry loop","src/handlers/status_notifier_handler.cpp: on_request"),("error detection","src/helpers/curl.cpp: curl_post")],
 ["requests received by an HTTP server","pauses"])

p("C22","Configuration is read faithfully, with defaults, or refused",
 "For every YAML map, each setting present as a scalar takes exactly the given value, each one absent (or not a scalar) takes its fixed default, independently of all others and of their order; unknown keys change nothing. A document that is not a map, or a numeric setting that is not a plain decimal number of its range (ports 0-65535), is refused with a configuration error, and no document causes any other error.",
 ["inputs","configurations"],"every YAML document; structured configurations with arbitrary subsets of settings and values",
 "Four documents are tested; notifier, queue manager and defaults are not.",
 ["src/config/broker_config.cpp","src/config/broker_config.h","src/config/log_config.h","src/config/notifier_config.h"],[("parsing","src/config/broker_config.cpp")],
 ["configuration getters","exceptions"])

p("C23","The running broker process keeps its promises over real sockets",
 "A broker process started with a configuration file serves clients, workers, monitor and frontend on the configured addresses: over real connections each submission is answered, sent to a capable worker, its progress shown to the monitor and its result posted to the frontend exactly once, under whichever queue manager is configured (single: a free worker gets a waiting job; multi: workers get jobs in rotation) and for arbitrary frame contents, and a worker that disconnects silently has its jobs retried on another worker. A configuration that cannot be used (unreadable file, wrong value, unknown queue manager, address in use) ends the process with a non-zero exit status and no crash.",
 ["configurations","histories","inputs"],"generated configurations and lock-step histories of real client, worker, monitor and frontend peers",
 "No test links or runs the program, and no test uses sockets together with the broker logic.",
 ["src/broker_connect.cpp","src/broker_core.cpp","src/main.cpp",R,H],[("wiring of sockets and handlers","src/broker_connect.cpp"),("start-up","src/broker_core.cpp")],
 ["network traffic of the process","exit status"])

p("C24","A long-running broker does not use ever more resources",
 "Once the workers and jobs of the past are gone (jobs reported, workers dropped or replaced, notifications confirmed or given up), the memory, open descriptors and threads in use are what they were before: they do not grow with the number of workers that came and went under new identities, of jobs that were submitted, finished, failed, retried or rejected, of malformed or stray messages from known or unknown peers, of notifications to a frontend that works or fails, or of messages passed through the reactor.",
 ["histories","inputs","fault_sequences"],"every history of registrations, losses, submissions, completions, junk and failing notifications, repeated any number of times",
 "Unit tests run a handful of events and never look at what is left behind.",
 [H,"src/queuing/multi_queue_manager.cpp","src/queuing/single_queue_manager.h","src/worker_registry.cpp","src/helpers/curl.cpp","src/reactor/reactor.cpp"],[("state kept per worker and job","src/handlers/broker_handler.cpp: remove_workers; queue managers: worker_terminated, worker_finished, worker_cancelled"),("curl handles","src/helpers/curl.cpp: curl_post"),("threads and sockets","src/reactor/reactor.cpp")],
 ["allocated bytes","open descriptors","threads"])

p("C25","The log is written where, as detailed and as large as configured",
 "The running broker writes its log to the configured file, creating missing directories. For each of the levels off, critical, err, warn, info and debug the log contains all messages of that level and of more severe ones and no others, in the order they were made, beginning with a line saying that the broker was started (unless logging is off). No log file grows beyond the configured size (unless a single message is larger), at most the configured number of rotated files is kept, and what is kept are the latest messages.",
 ["configurations","histories"],"every log level, file, size and number of rotations, and every sequence of events",
 "Start-up and logging are not covered by any test.",
 ["src/broker_core.cpp","src/helpers/logger.cpp","src/config/log_config.h","src/config/broker_config.cpp"],[("set-up of the log","src/broker_core.cpp: log_init"),("levels","src/helpers/logger.cpp: get_log_level, compare_log_levels")],
 ["contents, sizes and number of log files"])

p("C26","A restarted broker takes over the jobs that workers still process",
 "If the broker process is killed at any moment and started again with the same configuration, it serves the same addresses again: a worker that pings it is asked to introduce itself, and a job that the worker then claims to be processing is sent to nobody else, keeps that worker busy until it reports the job, and is reported to the frontend exactly once, with the outcome the worker gives or as FAILED if the worker is lost. What was reported before the restart is not reported again, a freeze is over, and new submissions are served as usual, also those queued behind claimed jobs, over any number of restarts.",
 ["crash_points","histories"],"every history of submissions, completions and restarts; every point between messages at which the process is killed",
 "Unit tests check one claimed job on a handler without a process, sockets or a restart.",
 ["src/broker_core.cpp","src/broker_connect.cpp",H,"src/queuing/multi_queue_manager.cpp","src/queuing/single_queue_manager.h"],[("claimed jobs","src/handlers/broker_handler.cpp: process_worker_init"),("request for introduction","src/handlers/broker_handler.cpp: process_worker_ping")],
 ["network traffic of the process before and after restarts"])

p("C27","Slow, failing or absent partners hold nobody else up",
 "While the frontend does not answer, fails or is unreachable, while the monitor is absent or restarts, and while a client does not read its replies, the running broker goes on answering all other clients and workers, accepting and dispatching jobs and noticing lost workers as usual. Reports raised meanwhile, however many, are kept and reach the frontend once it works again, in the order they were raised and confirmed exactly once (if it recovers before a report is given up), and once the monitor is reachable again it gets all further messages.",
 ["fault_sequences","histories","schedules"],"every history of traffic during which the frontend, the monitor and clients stall, fail, vanish and return",
 "No test uses the notifier, the monitor connection or a process together with the broker logic.",
 ["src/broker_connect.cpp","src/reactor/reactor.cpp","src/handlers/status_notifier_handler.cpp","src/reactor/router_socket_wrapper.cpp","src/reactor/socket_wrapper_base.cpp"],[("the notifier runs asynchronously","src/broker_connect.cpp: broker_connect"),("unbounded hand-over to asynchronous handlers","src/reactor/reactor.cpp: reactor, asynchronous_handler_wrapper"),("router sockets drop instead of blocking","src/reactor/router_socket_wrapper.cpp: send_message")],
 ["network traffic of the process"])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import sys
sys.path.insert(0,'/opt/veriftools/pyvenv/lib/python3.12/site-packages')
