"""What is built (GROUPS) and what is searched (PROPS)."""

LOGDIRS = ["common", "common/ephemeris", "common/logging", "common/math", "utils", "third_party/backward"]

GROUPS = {
    "log": {"main": ["log_main.cpp"], "dirs": LOGDIRS},
    "eph": {"main": ["eph_main.cpp"], "dirs": ["common", "common/ephemeris", "common/math", "utils", "third_party/backward"], "flags": ["-fsanitize=address"], "ldflags": ["-fsanitize=address"]},
    "sat": {"main": ["sat_main.cpp"], "dirs": ["common", "common/ephemeris", "common/math", "common/satellite", "core", "utils", "third_party/backward"], "flags": ["-fsanitize=address"], "ldflags": ["-fsanitize=address"]},
    "buf": {"main": ["buf_main.cpp"], "dirs": ["common", "utils", "third_party/backward"], "flags": ["-fsanitize=address"], "ldflags": ["-fsanitize=address"]},
    "ekf": {"main": ["ekf_main.cpp", "track_main.cpp"], "ekf": True, "dirs": ["common", "common/ephemeris", "common/logging", "common/math", "common/satellite", "core", "core/ekf", "utils", "sim/controllers", "sim/dynamics", "sim/sensors", "third_party/backward"]},
    "sim": {"main": ["sim_main.cpp", "sim_simulate.cpp", "model_main.cpp"], "dirs": ["common", "models", "common/ephemeris", "common/logging", "common/math", "common/satellite", "utils", "sim", "sim/controllers", "sim/dynamics", "sim/sensors", "third_party/backward"]},
    "post": {"main": ["post_main.cpp", "post_tool.cpp"], "ekf": True, "dirs": ["common", "common/ephemeris", "common/logging", "common/math", "common/satellite", "core", "core/ekf", "utils", "third_party/backward"]},
    "gather": {"main": ["gather_main.cpp", "gather_tool.cpp"], "dirs": ["common", "common/ephemeris", "common/logging", "common/math", "utils", "parsers/ubx", "third_party/backward"]},
    "ubx": {"main": ["ubx_main.cpp"], "dirs": ["common", "common/math", "utils", "parsers", "parsers/ubx", "third_party/backward"]},
}

COMMON_NOTES = [
    "Every run is a forked process executing an explicit plan generated from the seed; the plan is the only source of nondeterminism.",
    "g++ -O1, x86-64 Linux, glibc/libstdc++ of the sandbox; yaml-cpp, fmt and Eigen are used as installed.",
]

LOGREAL = ["log writer, streams, record serialisation, format description, log reader, stream reader, UTC time, progress bar"]
LOGSTUB = ["storage faults injected below libstdc++ at read/write/writev", "clocks simulated at clock_gettime"]
LOGSTATES = "record type x boundary position (byte offset of the cut inside a record) or stream/subset sizes"

UBXREAL = ["receiver protocol parser, message encoder, version handling, waits"]
UBXSTUB = ["serial port library (async_comm is not installed): a stand-in with its interface, no thread, bytes arrive when the schedule says", "clocks simulated at clock_gettime"]

EPHREAL = ["ephemeris parsers, bit extraction, check codes, time conversion"]
EPHSTUB = ["satellites, receiver and link: an independent encoder of the three navigation messages"]
EPHSTATES = "which parts are held, each from the current, the previous or an older issue"
EPHSEARCH = "loss, duplication, reordering, damage and change of issue of navigation words"

EKFREAL = ["estimator, generated filter, measurement models, satellite manager and cache, circular buffer"]
EKFSTUB = ["sensors and transport: latency, loss and duplication decided by the plan", "memory the estimator starts in filled with a chosen pattern"]
EKFSEARCH = "latency, order, loss and duplication of measurements"
SATREAL = ["satellites, satellite manager, circular buffer, orbit and atmosphere models, satellite cache, time arithmetic"]
SATSTUB = ["satellites and link: generated orbits; arrival order, losses and repetitions decided by the plan", "independently written orbit equations as the oracle"]
SATSEARCH = "arrival order, repetition and loss of ephemerides, and clock and receiver jumps"

SIMREAL = ["vehicle, course follower, controllers, sensor models, orbit and atmosphere models, log writer and reader; the simulation program"]
SIMSTUB = ["clocks simulated at clock_gettime", "C library rand() restarted per process"]

PROPS = {
    "C01": dict(group="log", runs=(6000, 400000), wall=(40, 1500), real=LOGREAL, stubs=LOGSTUB, states=LOGSTATES,
                rule="A random log: 1-8 streams of 16 record types, up to 600 records, interleaved, closed explicitly or by destruction, read back completely twice under short and interrupted reads and writes and clock jumps. Non-trivial: at least two streams and more than three records read."),
    "C02": dict(group="log", runs=(6000, 400000), wall=(40, 1500), real=LOGREAL, stubs=LOGSTUB, states=LOGSTATES,
                rule="Random logs, read with all and with two random subsets of the streams subscribed. Non-trivial: the merged history switches stream more than twice."),
    "C03": dict(group="log", runs=(6000, 400000), wall=(40, 1500), real=LOGREAL, stubs=LOGSTUB, states=LOGSTATES,
                rule="Random logs whose data files are cut at a chosen byte (afterwards, or by storage refusing data from that byte on while writing). Non-trivial: at least one record is missing or torn."),
    "C04": dict(group="log", runs=(6000, 400000), wall=(40, 1500), real=LOGREAL, stubs=LOGSTUB, states=LOGSTATES,
                rule="Random logs read while some data files are missing or fail with EIO from a chosen byte on, then read again once storage works. Non-trivial: at least one stored record is unreadable in the first reading."),
    "C05": dict(group="log", runs=(5000, 300000), wall=(40, 1500), real=LOGREAL, stubs=LOGSTUB, states="record types decoded",
                rule="Random logs decoded from the stored description alone by an independent decoder. Non-trivial: at least one record decoded."),
    "C06": dict(group="log", runs=(5000, 300000), wall=(40, 1500), real=LOGREAL, stubs=LOGSTUB, states="amendment depth x number of visible streams",
                rule="One to four logs that amend each other in one directory, with keys that are near relatives in decimal notation, each read back after all were written. Non-trivial: more than one stream visible."),
    "C07": dict(group="log", runs=(6000, 400000), wall=(40, 1500), real=LOGREAL, stubs=LOGSTUB, states="calls made x period",
                rule="Random logs read with one to three periodic maintenance callbacks, some of which ask the reading to stop. Non-trivial: more than three records delivered with a maintenance callback registered."),
    "C29": dict(group="log", runs=(1500, 40000), wall=(60, 1500), real=LOGREAL + ["common/logging/log_reader.py and log_format's description files, in a Python process of its own per run"], stubs=LOGSTUB, states="record type x number of records",
                rule="One to four logs that amend each other, data files cut off at any byte, other files and directories beside them; one of the logs (or the directory: the latest) is loaded by the Python reader, with and without its time normalization, and every field of every record is compared with what was written. Non-trivial: more than three records from more than one stream."),

    "C08": dict(group="ubx", runs=(20000, 1500000), wall=(40, 1500), real=UBXREAL, stubs=UBXSTUB, states="frame length x class and identifier",
                search="byte-level link faults, chunkings and subscription changes",
                rule="1-30 frames (all classes, 0 to 2048 payload bytes, start patterns and whole frames inside payloads) with bit flips, duplicates and noise between frames, for 35% of the runs also byte loss, insertion, reordering, truncation and forged headers; fed byte by byte and again in random chunks, listeners registered at any point. Non-trivial: at least two frames had to be delivered and a fault occurred."),
    "C09": dict(group="ubx", runs=(20000, 1500000), wall=(40, 1500), real=UBXREAL, stubs=UBXSTUB, states="frame length x class and identifier",
                search="link corruption followed by clean traffic",
                rule="Up to a dozen frames and corruptions of every kind (forged lengths from 0 to 65535 included), then at least 4200 bytes of clean traffic. Non-trivial: at least two frames had to be delivered after the corruption."),
    "C10": dict(group="ubx", runs=(20000, 1500000), wall=(40, 1500), real=UBXREAL, stubs=UBXSTUB, states="call x outcome x duration",
                search="receiver answers, delays and clock jumps",
                rule="1-7 configuration calls, version requests and waits, while answers (right, wrong, damaged, split, late, none), unsolicited traffic and wall-clock jumps arrive at chosen instants. Non-trivial: two calls and at least one answer."),

    "C12": dict(group="eph", runs=(12000, 1500000), wall=(40, 1500), real=EPHREAL, stubs=EPHSTUB, states=EPHSTATES, search=EPHSEARCH,
                rule="Up to three satellites, several issues each (some at the end of a week), subframes in and out of order with late subframes of earlier issues, bad preambles, truncation and restarts; clean sets in every order in between and at the end. Non-trivial: an ephemeris is reported after a disturbance or a second time."),
    "C13": dict(group="eph", runs=(12000, 1500000), wall=(40, 1500), real=EPHREAL, stubs=EPHSTUB, states=EPHSTATES, search=EPHSEARCH,
                rule="As C12 with I/NAV words: bit flips in and outside the protected part, alert pages, swapped halves, clock words of other satellites. Non-trivial: an ephemeris is reported after a disturbance or a second time."),
    "C14": dict(group="eph", runs=(12000, 1500000), wall=(40, 1500), real=EPHREAL, stubs=EPHSTUB, states=EPHSTATES, search=EPHSEARCH,
                rule="As C12 with GLONASS strings: one and two bit errors, changes of the time mark, repeated frames. Non-trivial: an ephemeris is reported after a disturbance or a second time."),

    "C18": dict(group="sat", runs=(6000, 1500000), wall=(40, 1500), real=SATREAL, stubs=SATSTUB, states="ephemerides held x place of the newcomer", search=SATSEARCH,
                rule="Up to 40 (thorough: 120) ephemerides of one satellite of a random constellation arrive with gaps, late, early, twice, and corrected; states are asked for at, between and beyond reference times, also by a second satellite object that got the same ephemerides in another order. Non-trivial: shuffled arrivals compared after a disordered history."),
    "C19": dict(group="sat", runs=(6000, 1500000), wall=(40, 1500), real=SATREAL, stubs=SATSTUB, states="satellites held per constellation", search=SATSEARCH,
                rule="Up to 200 (thorough: 600) ephemerides of up to 250 satellites per constellation, interleaved with lookups of known, evicted, never heard and unsupported satellites. Non-trivial: lookups after an eviction."),
    "C20": dict(group="sat", runs=(4000, 1000000), wall=(40, 1500), real=SATREAL, stubs=SATSTUB, states="ephemerides held x age", search=SATSEARCH,
                rule="One cache updated up to 40 (thorough: 120) times while time runs, jumps and goes back, the receiver jumps and ephemerides arrive, compared with a new cache each time. Non-trivial: more than two updates."),

    "C21": dict(group="buf", runs=(8000, 1500000), wall=(40, 1500), real=["circular buffer and its iterators"], stubs=["elements that account for their own construction and destruction and fail on demand"], states="buffer size x fill x position of the first element",
                search="operation histories and failing constructions",
                rule="Up to 400 (thorough: 1500) operations on buffers of 2 to 100 places: insertion and removal at both ends, displacement when full, iteration, clearing, end of life, and element constructors that throw. Non-trivial: more than 20 operations and the buffer was full at least twice."),

    "C15": dict(group="ekf", runs=(2500, 300000), wall=(50, 1500), real=EKFREAL, stubs=EKFSTUB, states="kind of measurement x lateness x history length", search=EKFSEARCH,
                rule="Inertial samples at 10-250 Hz, positions, fix-and-hold and observation measurements, each with its own latency up to and beyond the limit, at equal and nearly equal times, lost and doubled; the estimate is compared at random moments with that of a fresh estimator given the accepted measurements in time order. Non-trivial: more than one measurement was late."),
    "C16": dict(group="ekf", runs=(2000, 300000), wall=(50, 1500), real=EKFREAL, stubs=EKFSTUB, states="kind of measurement x lateness x history length", search=EKFSEARCH,
                rule="As C15 with many measurements that must be refused: too old, with unknown, unsupported or evicted satellites, alone or among known ones. Non-trivial: several refused and some late."),
    "C17": dict(group="ekf", runs=(2500, 300000), wall=(50, 1500), real=EKFREAL, stubs=EKFSTUB, states="kind of measurement x lateness x history length", search=EKFSEARCH,
                rule="As C15 with gaps of up to 2.5 s, outliers and refused measurements; the estimate and its history are examined after every few measurements. Non-trivial: more than one measurement was late."),

    "C28": dict(group="ekf", runs=(1500, 200000), wall=(60, 1500), real=EKFREAL, stubs=EKFSTUB + ["an independently written dense extended Kalman filter as the oracle"], states="kind of measurement x lateness x history length", search=EKFSEARCH,
                rule="As C15 with arbitrary starting states, correlated uncertainties, biases, noise settings and turns; after every measurement the estimate is compared with that of the independent filter, and the logged residuals with the predicted ones. Non-trivial: more than one measurement was late."),

    "C25": dict(group="ekf", runs=(1500, 100000), wall=(60, 1500), real=["EKF estimator, generated filter and its models, simulated car with its controllers and waypoint follower, simulated inertial sensor"], stubs=["receiver positions, noise, biases and latencies made by the harness", "WGS-84 and frames of the receiver written down independently"], states="regular positions x number of positions x accuracy", search="drives, noise, latencies and outages",
                rule="A simulated drive of 12 to 180 s with random waypoints, sensor qualities, biases, lever arm, errors of the starting state, late, lost and missing positions and late inertial samples. Non-trivial: more than 20 positions got through."),

    "C11": dict(group="post", runs=(3000, 60000), wall=(60, 1500), real=["the post-processing program, log reader, log writer, estimator, filter, satellite manager, configuration"], stubs=["the recorded log is written by the harness with the real log writer", "clocks simulated at clock_gettime", "storage faults injected below libstdc++", "reference: the estimator itself, given the history the log contains; initial state and uncertainties computed independently"], states="messages x way of starting x order of ties", search="logs, starts, bundles, cuts, storage behaviour and memory contents",
                rule="A log of inertial samples and observation bundles, simulated (recorded when made) or received (some time later, several in one go), one log or two, cut off or not, is post-processed from the recorded or the configured start. Non-trivial: more than 20 messages."),
    "C22": dict(group="sim", runs=(2000, 100000), wall=(60, 1500), real=SIMREAL, stubs=SIMSTUB, states="program or library x observers x satellites", search="memory contents, clocks, storage behaviour and observers",
                rule="The same experiment two or three times in new processes that differ in what their memory holds, what the clock says, how the storage splits writes, and who listens; half of the settings may be left out. Non-trivial: more than two reports compared."),
    "C23": dict(group="sim", runs=(6000, 200000), wall=(60, 1500), real=SIMREAL, stubs=SIMSTUB, states="reports in a step x length of the step in sensor periods", search="step lengths, sensor rates and recording times",
                rule="Up to 800 (thorough: 4800) steps of 1 us to 0.3 s, sensor rates from 0.1 Hz to 1 kHz, ephemerides recorded before, during and after the run. Non-trivial: more than three reports and not all in every step."),
    "C26": dict(group="sim", runs=(20000, 400000), wall=(60, 1500), real=["preintegrated inertial measurement model, its state, quaternion arithmetic, time arithmetic"], stubs=["inertial sensor: sampling times and motion decided by the plan", "independently written strapdown integration as the oracle"], states="pieces x piece cut x distance from the sample before", search="sampling times, lost samples, and the times and order of cuts",
                rule="Up to 120 (thorough: 300) samples with jitter, gaps and close pairs; the model is cut again and again at arbitrary times, also next to and exactly at samples, while it goes on integrating. Non-trivial: at least one cut."),
    "C36": dict(group="sim", runs=(2000, 60000), wall=(60, 1500), real=SIMREAL + ["pseudorange, carrier phase and clock models"], stubs=SIMSTUB + ["independently written geodesy and orbits as the oracle"], states="satellites observed x epochs", search="step lengths, courses, clocks and ephemerides",
                rule="A noise-free drive as in C27; every observation goes into the models at the true state and beside it. Non-trivial: more than ten observations."),
    "C27": dict(group="sim", runs=(2000, 100000), wall=(60, 1500), real=SIMREAL, stubs=SIMSTUB + ["independently written geodesy, orbits and kinematics as the oracle"], states="reports in a step x length of the step in sensor periods", search="step lengths, courses, noise settings and ephemerides",
                rule="As C23 with courses, antenna positions, places and noise settings at random; every report is compared with what the true course implies. Non-trivial: more than ten reports compared."),
    "C24": dict(group="gather", runs=(6000, 100000), wall=(60, 1500), real=["the collecting program, receiver protocol parser, ephemeris parsers, log writer and reader"], stubs=["serial port library (async_comm is not installed): a stand-in with its interface", "receiver, link, satellites: an independent encoder of the messages", "clocks simulated at clock_gettime and sleep", "storage faults injected below libstdc++"], states="constellation x completing part x age of the ephemeris", search="link faults, lateness of parts, clock jumps, storage behaviour and the moment of the interrupt",
                rule="Up to nine satellites of three constellations that share numbers, new issues at any moment, parts lost, doubled, damaged, late and out of order, observations of every kind, unrelated traffic, noise, clock jumps, short and interrupted writes; then the interrupt, possibly with traffic after it. Non-trivial: more than one ephemeris of one constellation logged."),
}
