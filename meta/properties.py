"""The properties, as data; `python3 /verif/meta/mk.py` writes properties.jsonl and MANIFEST.json from this."""

LOGF = ["common/logging/log_writer.cxx", "common/logging/log_writer.h", "common/logging/log_reader.cxx", "common/logging/log_reader.h",
        "common/logging/serialize.cxx", "common/logging/log_format.cxx", "common/logging/log_key.h"]


def P(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}], "hook_needed": hook}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = [observe]
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}


PROPERTIES = [
    P("C01", "A closed log gives back exactly the records that were written",
      "Every record written to a log before it is closed is delivered exactly once by a reader of that log, with the value, time stamp and key it was written with, and in the order written within its stream. Start time, end time and the number of records per stream are the written ones, however the log was closed (explicitly or by the writer's end of life) and however the operating system splits or interrupts the reads and writes.",
      ["inputs", "histories", "fault_sequences"],
      "All sequences of streams and records of every record type, all interleavings of streams, all numbers of records, all splittings and interruptions of the file operations, all readings of the clock.",
      "The tests write a handful of fixed records to a few streams on a well-behaved file system and read them once.",
      LOGF, "Records are appended behind their time stamp; the count and time range are written at close; the reader reconstructs the records by type.",
      observe="The callbacks of a reader, compared with the list of records handed to the writer."),
    P("C02", "Readers see one time-ordered history, whatever they subscribe to",
      "When every stream's records were written in time order, a reader delivers all subscribed records in globally non-decreasing time order. Subscribing to fewer streams changes neither the records delivered for the others nor their relative order.",
      ["inputs", "histories", "configurations"],
      "All sets of streams and time stamps (including equal ones and ones that differ by a nanosecond or straddle a second), all subsets of subscriptions.",
      "The tests use a few streams with evenly spaced distinct times and subscribe to all of them.",
      ["common/logging/log_reader.cxx", "common/logging/log_reader.h", "common/utctime.cxx"],
      "A merge over the per-stream next time stamps picks the earliest each step.",
      observe="Order of reader callbacks."),
    P("C03", "A log cut short gives its exact intact prefix and nothing else",
      "If a data file ends early, at any byte, because of a crash, truncation or full storage, a reader delivers exactly the records of that stream that are completely present, in order and unchanged. A partially stored record is never presented as a valid one, and the other streams are delivered completely.",
      ["crash_points", "fault_sequences", "inputs"],
      "All byte positions at which a stream's data can end, for all record types and sizes, for any subset of the streams, with truncation after the fact or storage that refuses data from that byte on (persistent failure).",
      "The tests never truncate a file or make a write fail.",
      LOGF, "The reader must notice that a time stamp or payload is incomplete.",
      observe="Reader callbacks and the read status they report."),
    P("C04", "Unreadable streams never stop or corrupt the reading of others",
      "When data files of a log are missing or fail with input errors, reading still terminates, delivers every record of the healthy streams unchanged and in order, and delivers nothing that was not written. Once the storage recovers, a new reader delivers everything again.",
      ["fault_sequences", "inputs"],
      "All subsets of streams that are missing or start failing at any byte offset, for all logs.",
      "The tests never read a log with missing or failing files.",
      ["common/logging/log_reader.cxx", "common/logging/log_reader.h"],
      "Each stream has its own file; a stream that fails is treated as ended.",
      observe="Reader callbacks; termination."),
    P("C05", "The stored description of a log decodes the stored bytes exactly",
      "For every record type, the self-describing format stored beside the data lists the fields in the order, number and binary type in which they are stored, so that a decoder which knows only that description consumes each data file exactly and obtains the written values under the described names.",
      ["inputs"],
      "All record types that can be logged, with all field values, numbers of records and stream combinations.",
      "The tests compare the descriptions of a few types with fixed text and never decode data through them.",
      ["common/logging/log_format.cxx", "common/logging/serialize.cxx", "common/logging/log_format.h"],
      "Format and serialisation are two hand-written lists per type which must agree.",
      observe="An independent decoder of the stored files."),
    P("C06", "Streams never mix: keys, amended logs and latest-log lookup",
      "Different stream keys never share data, whatever their numbers. In a log that amends others, each key is read from the newest log that has it and from no other, the time range spans all logs in the chain, and reading an amended log directly is unaffected by later amendments. Opening a directory of logs opens the most recent one, whatever else lies there.",
      ["inputs", "histories", "configurations"],
      "All sets of keys, all chains of amended logs of any depth with overlapping or disjoint key sets, in one directory, in any order of start times.",
      "The tests use a few small keys and one level of amendment.",
      ["common/logging/log_reader.cxx", "common/logging/log_writer.cxx", "common/logging/log_key.h"],
      "File names are derived from keys; a reader recursively includes the amended log and overrides by key.",
      observe="Reader callbacks and start/end times."),
    P("C07", "Maintenance callbacks run on schedule and can stop a reading",
      "While a log is read, each periodic maintenance callback is called as often as its period elapses in log time, at most once per delivered record and never before its time is due. When one asks to stop, no further record is delivered; callbacks never change which records are delivered.",
      ["inputs", "histories", "schedules"],
      "All logs, periods and numbers of periodic callbacks, including ones that ask to stop at any point.",
      "The tests register one callback over evenly spaced records.",
      ["common/logging/log_reader.cxx", "common/quantized_time.h"],
      "The read loop compares the next record's time with each callback's next due time.",
      observe="Order of maintenance and record callbacks."),
    P("C08", "Every intact receiver frame is delivered once, no corrupt one ever",
      "Over any byte stream, the receiver-protocol parser delivers to each subscribed listener exactly the frames with a valid checksum that it meets, once per listener, in order, with class, identifier and unaltered payload; what it delivers always is an intact frame of the stream. Every intact frame is delivered as long as damage has not destroyed the framing. How the stream is cut into chunks makes no difference.",
      ["inputs", "fault_sequences", "schedules"],
      "All byte streams made of frames of every class and length (including zero-length, maximum-length and oversize ones) under loss, insertion, duplication, bit errors and reordering of bytes, all chunkings, all subscription tables.",
      "There are no tests of the parser.",
      ["parsers/ubx/ubx.cxx", "parsers/ubx/ubx.h", "parsers/ubx/ubx_defs.h"],
      "A byte-driven state machine with a length field, checksum and table of callbacks.",
      observe="Subscriber callbacks."),
    P("C09", "The receiver link resynchronises after any corruption",
      "After any corruption on the receiver link ends, the parser delivers every intact frame that starts later than one maximum frame length after the last corrupted byte, provided the traffic after the corruption does not contain the start pattern inside frames. No byte sequence makes it stop making progress or fail.",
      ["fault_sequences", "inputs"],
      "All corruptions (loss, insertion, flips, truncated frames, forged length fields, noise) followed by clean traffic.",
      "There are no tests of the parser.",
      ["parsers/ubx/ubx.cxx"],
      "Invalid headers, lengths and checksums restart the search for a frame.",
      observe="Subscriber callbacks after faults stop."),
    P("C10", "Receiver configuration is well formed and its waits are bounded",
      "Every configuration message sent is a complete frame with correct length and checksum whose contents do not depend on what was sent or received before, other than the receiver's version. Waiting for an acknowledgement or a version reply succeeds if and only if a positive one arrives (before a negative one) within the one-second timeout; it ends promptly then and at the timeout otherwise, whatever the receiver sends and however the wall clock jumps. The reported version and module are those of the last version reply.",
      ["schedules", "fault_sequences", "histories"],
      "All receiver behaviours (prompt, late, missing, negative, duplicate or foreign acknowledgements, unsolicited traffic, version replies of any length), delivered at any instant, all wall-clock jumps.",
      "There are no tests of the receiver protocol code.",
      ["parsers/ubx/ubx.cxx", "parsers/ubx/ubx.h"],
      "Commands are framed with a running checksum; busy-wait loops poll a state updated by the receive callback.",
      observe="Bytes given to the serial interface; return values and duration of the configuration calls."),
    P("C11", "Post-processing a log gives the estimates of its history, completely",
      "Post-processing a recorded log gives the estimator every fresh ephemeris, every inertial sample and every complete bundle of observations of the log exactly once, each at the time it was made, in the order of the log, from the requested initial state, time and uncertainties. For 45 seconds it logs, about every 10 ms of the log, exactly the estimate (and the residuals of every observation) that an estimator given that history has, and names the log it was made from. The same log and configuration give the same result, whatever memory held, however the storage splits reads and writes and wherever the log was cut off.",
      ["inputs", "histories", "fault_sequences"],
      "All logs (order, ties, delays and bundling of messages, missing streams, cut-off files), all initial states and uncertainties, all initial contents of memory, all splits of file accesses.",
      "No test runs the program.",
      ["tools/post_process.cxx", "common/logging/log_reader.cxx", "core/ekf/rtk_ekf_estimator.cxx"],
      "Callbacks for every stream of the log feed the estimator; a maintenance callback logs its state.",
      observe="The log the program writes."),
    P("C12", "GPS ephemerides are never assembled from different issues",
      "A GPS ephemeris is reported complete only when all three of its subframes, received since the last report, carry one issue of data, and then every field equals the broadcast one, its reference times dated in the right week. After any loss, duplication, reordering, corruption or change of issue, one clean set of subframes completes the current issue again.",
      ["histories", "fault_sequences", "schedules"],
      "All sequences of navigation words under loss, duplication, reordering, truncation, bad preambles, restarts and issue changes at any point, all field values.",
      "The tests feed one recorded set of subframes in order.",
      ["common/ephemeris/gps.cxx", "common/ephemeris/gps.h"],
      "Issue-of-data counters in three subframes are compared once all were collected.",
      observe="The parser's return value and the resulting ephemeris."),
    P("C13", "Galileo ephemerides are never assembled from different issues",
      "A Galileo ephemeris is reported complete only when its four ephemeris words passed the checksum and carry one issue of data and the two other words were received since the last report; then every field equals the broadcast one. After any loss, duplication, reordering, corruption or change of issue, one clean set of pages completes the current issue again.",
      ["histories", "fault_sequences", "schedules"],
      "All sequences of navigation pages under loss, duplication, reordering, bit errors and issue changes at any point, all field values.",
      "The tests feed one recorded set of pages in order.",
      ["common/ephemeris/galileo.cxx", "common/ephemeris/galileo.h"],
      "Issue-of-data in each word is compared with the one being collected.",
      observe="The parser's return value and the resulting ephemeris."),
    P("C14", "GLONASS ephemerides are never assembled from different frames",
      "A GLONASS ephemeris is reported complete only when all of its strings carry one time mark (super-frame) and passed the check code, and then every field equals the broadcast one. After any loss, duplication, reordering or corruption, one clean frame completes again.",
      ["histories", "fault_sequences", "schedules"],
      "All sequences of navigation strings under loss, duplication, reordering, bit errors and frame changes at any point, all field values.",
      "The tests feed one recorded frame in order.",
      ["common/ephemeris/glonass.cxx", "common/ephemeris/glonass.h"],
      "Strings carry a number and the super-frame number they belong to.",
      observe="The parser's return value and the resulting ephemeris."),
    P("C15", "Delayed and reordered measurements give the in-order estimate",
      "A measurement that is not more than one second older than the newest one and names only known satellites is accepted, whatever arrived before it and in whatever order. The estimate (time, value and covariance) after any sequence of arrivals equals, within rounding, the estimate of a fresh estimator that is given the accepted measurements in order of their time, each exactly once. Measurements of equal time count in the order of arrival.",
      ["schedules", "histories", "fault_sequences"],
      "All arrival orders and delays of measurement sequences of every kind, including simultaneous ones and bursts, within the history window.",
      "The tests reorder at most two mocked measurements.",
      ["core/ekf/rtk_ekf_estimator.cxx", "core/ekf/rtk_ekf_estimator.h", "core/ekf/rtk_ekf_impl.cxx"],
      "A history of states, inputs and measurements is rewound and replayed.",
      observe="The estimator's published state."),
    P("C16", "Rejected measurements leave no trace in the estimate",
      "A measurement that is too old for the history, names a satellite that is unknown, unsupported or forgotten, or holds more observations than the update has room for, is reported as refused and changes neither the current nor any later estimate. The estimator goes on accepting valid measurements, and never ends the process on a refused one.",
      ["histories", "fault_sequences"],
      "All histories in which rejected measurements (stale, before initialisation, outliers, from unknown or evicted satellites) are inserted at any point.",
      "The tests reject one measurement at a time and look at one return value.",
      ["core/ekf/rtk_ekf_estimator.cxx", "core/ekf/rtk_ekf_impl.cxx", "core/sat_manager.cxx"],
      "Validation happens during replay of the history.",
      observe="Return status and published state, compared with a run without the rejected measurements."),
    P("C17", "The filter state stays valid for ever",
      "Under any sequence of measurements within the sensors' ranges, in any order and with any gaps, the published state is finite, its rotations have unit norm, its covariance is symmetric and positive semi-definite, and its time is that of the newest accepted measurement. The history of states is in order of time and holds at most one state older than one second; a copy of a state is equal to it, time included.",
      ["histories", "schedules", "inputs"],
      "All sequences of motions, measurements, delays and gaps within the sensors' ranges.",
      "The tests take a few steps.",
      ["core/ekf/rtk_ekf_estimator.cxx", "core/ekf/rtk_ekf_impl.cxx", "core/ekf/ekf_gen"],
      "Box-plus on manifolds and square-root or symmetric covariance updates.",
      observe="The published state after each step."),
    P("C18", "Almanac answers do not depend on the order ephemerides arrive in",
      "After any set of ephemerides of a satellite has been received, its position, velocity and clock at any time are those of the ephemeris whose reference time is closest, whatever the order, repetition or delay of arrival; of several with the same reference time one counts. Ephemerides of other satellites or constellations have no influence, and an answer agrees with the published orbit equations for the ephemeris it comes from.",
      ["histories", "schedules", "fault_sequences"],
      "All multisets of ephemerides over all constellations, all arrival orders, all query times interleaved with arrivals.",
      "The tests query satellites with one or two ephemerides added in order.",
      ["common/satellite/satellite.cxx", "common/satellite/satellite_state.cxx", "common/ephemeris"],
      "Each satellite keeps a list of ephemerides and selects by time difference.",
      observe="Satellite state queries."),
    P("C19", "The satellite manager holds its bounds and never confuses satellites",
      "The manager holds, per constellation, the satellites most recently heard of for the first time, up to its fixed capacity, dropping the longest known first and leaving other constellations alone. A lookup of a held satellite returns exactly that satellite with exactly the ephemerides received for it since it was taken in, the same object until it is dropped. A lookup of any other satellite, or an ephemeris of an unsupported constellation, is reported as an error and changes nothing.",
      ["histories", "schedules", "fault_sequences"],
      "All histories of observations appearing, disappearing, flapping and stalling over all constellations and all clock steps.",
      "The tests add a few satellites once.",
      ["core/sat_manager.cxx", "core/sat_manager.h"],
      "A fixed number of slots with last-seen times.",
      observe="The manager's queries after each observation."),
    P("C20", "Cached satellite geometry equals fresh computation",
      "Whatever the history of updates, with time running, jumping or going back, the receiver moving and new ephemerides arriving, the cached position, velocity, clock, line of sight, elevation and delays equal those of a new cache updated once with the same time and place. The cached position belongs to the time of transmission that agrees with the travel time of the signal, and every update ends.",
      ["histories", "schedules"],
      "All interleavings of cache updates and queries for any set of satellites, times going forwards or backwards.",
      "The tests query a cache after one update.",
      ["common/satellite/satellite_cache.cxx", "common/satellite/satellite_cache.h"],
      "The cache is refreshed when asked for another time or place.",
      observe="Cache queries compared with a fresh cache."),
    P("C21", "The circular buffer behaves as a bounded double-ended queue",
      "Under any sequence of insertions and removals at either end, insertion into a full buffer, clearing, copying and traversal, the buffer holds exactly what a double-ended queue of the same capacity would, and its iterators visit exactly those elements in order. Every element is constructed in suitably aligned memory and destroyed exactly once, also when its construction throws.",
      ["histories", "inputs"],
      "All sequences of insertions and removals at either end, clears, copies and traversals, for all capacities and element types with lifetimes, including wrap-around.",
      "The tests use a few operations on integers.",
      ["common/circular_buffer.h"],
      "A fixed array with wrapping head and tail indices.",
      observe="Contents, iteration and element lifetimes against a reference queue."),
    P("C22", "A simulated flight is a function of its configuration",
      "Running the simulator twice with the same configuration, as a program or as a library, produces the same truth and the same measurements at the same times with the same values, and so the same log. Neither the wall clock, what memory held before, the observers attached, nor how the operating system splits or interrupts writes has any influence; settings that are left out have one fixed default.",
      ["configurations", "schedules", "fault_sequences"],
      "All simulator configurations, complete or not, sets of observers, memory contents, wall-clock and storage behaviours.",
      "The tests run one configuration for a few steps in one process.",
      ["sim/sim.cxx", "sim/simulate.cxx", "sim/sensors", "sim/dynamics", "sim/controllers"],
      "Simulated time advances by fixed steps; random numbers come from engines with fixed seeds.",
      observe="Measurements delivered to observers, and the bytes of the log written."),
    P("C23", "Simulated sensors report at their rate, dated, each once; the sky is replayed",
      "Simulated time advances by exactly the length of each step. Each simulated sensor reports at the first step at which its period has passed since its last report and at no other, once per step and to every observer, dated with the time of the step, with one observation per satellite that is known. Each recorded ephemeris is passed on once, unchanged, in recorded order, at the first step not before the time it was recorded at, at most one per constellation and step.",
      ["configurations", "schedules", "histories"],
      "All step lengths, sensor rates, start times, recording times of ephemerides and run lengths.",
      "The tests count the reports of one configuration over a short time.",
      ["sim/sim.cxx", "sim/sensors/imu.cxx", "sim/sensors/gnss.cxx"],
      "Each sensor keeps the time of its last sample; ephemerides are read from a log whose next time stamp is compared with the simulated time.",
      observe="Measurements delivered to observers."),
    P("C24", "A collecting session logs what the receiver sent",
      "When the collecting program runs until it is interrupted, its log holds every ephemeris whose parts all arrived intact and whose reference time is within two hours of the host's clock, dated when its last part arrived, with the broadcast content, and every supported observation of every intact measurement message, once, in order, with the receiver's time, the signal's frequency, range, phase and range rate. It holds nothing else: no ephemeris mixed from different issues, satellites or constellations, none damaged, none outside the two hours. Noise, loss, duplication, damage, chunking, clock jumps, short writes and the moment of the interrupt change nothing else.",
      ["crash_points", "schedules", "fault_sequences"],
      "All receiver traffic, link faults, host clock behaviours, storage behaviours and moments of the interrupt.",
      "No test runs the collecting program.",
      ["tools/gather_ephemeris.cxx", "parsers/ubx/ubx.cxx", "common/ephemeris", "common/logging"],
      "Receiver callbacks assemble and log until a stop is requested.",
      observe="The log read back, compared with what was sent."),
    P("C25", "The estimate follows a drive, and knows how well",
      "Fed the inertial samples of a drive and the positions and velocities of the vehicle's antenna, noisy as declared, some late within the estimator's history and some lost, the estimated attitude, position, velocity and sensor biases stay as close to the truth as the estimator's covariance says while positions keep coming. Once positions have come regularly for some seconds, also after an outage, the position estimate is about as accurate as they are, and its covariance says so.",
      ["histories", "fault_sequences", "inputs"],
      "All drives, sensor qualities and biases, lever arms, starting errors, latencies, losses and outages of positions.",
      "The tests compare derivatives and single steps with themselves, none compares an estimate with a truth.",
      ["core/ekf/rtk_ekf_estimator.cxx", "core/ekf/rtk_ekf_impl.cxx", "core/ekf/ekf_gen", "sim/dynamics/car.cxx", "sim/sensors/imu.cxx"],
      "The estimator propagates with inertial samples and corrects with positions, rewinding for late ones.",
      observe="Estimate and covariance after inertial samples, compared with the simulated drive."),
    P("C26", "Cutting preintegrated inertial measurements does not change the motion",
      "A preintegrated inertial measurement, built from samples at any times and cut into pieces at any times and in any order while it grows, spans the same time as the samples, and its pieces, applied one after the other, move a state as strapdown integration of the samples does, within the accuracy of the integration. The residual of each piece vanishes for states that moved that way, reacts to a displaced state as it should, also for another bias than it was integrated with, and is weighted by the covariance of the piece.",
      ["schedules", "histories", "inputs"],
      "All sequences of sample times, rates and biases, all times and orders of cuts (next to and at samples included).",
      "The tests cut one evenly sampled measurement once.",
      ["models/imu_model.cxx", "models/imu_model.h", "models/imu_state.h"],
      "Samples are integrated as they arrive and kept; a cut interpolates a sample and integrates the rest again.",
      observe="The preintegrated state, residuals and covariance of each piece."),
    P("C27", "Simulated measurements agree with the simulated truth",
      "At every report, inertial samples equal the true rotation rate and specific force in the body frame plus the reported bias, and ranges, range rates and phases equal those of the true antenna position and velocity, the transmitting satellite at the time of transmission and the true clocks, plus atmospheric delays, within the configured noise. The true course itself is consistent: positions, attitudes and rates are each other's integrals, and the vehicle makes for its waypoints within its limits.",
      ["configurations", "schedules", "histories"],
      "All courses, places on Earth, antenna positions, noise settings, step lengths and ephemerides.",
      "The tests look at one parked or straight-driving vehicle.",
      ["sim/sensors/imu.cxx", "sim/sensors/gnss.cxx", "sim/dynamics/car.cxx", "sim/sim.cxx"],
      "Sensors derive measurements from the vehicle's state and the ephemerides.",
      observe="Measurements delivered to observers, compared with independently written geodesy, orbits and kinematics."),
    P("C28", "The filter is an extended Kalman filter of the documented models",
      "After any history of accepted measurements the state and its covariance equal, within rounding, those of an extended Kalman filter of the documented models that is given the same: strapdown prediction with every inertial sample, a second-order covariance transition, position and velocity of the antenna in the Earth-fixed frame, and ambiguities held to fixed values. Satellite observations, switched off in the configuration, only advance the time. Every logged residual is the measurement, its prediction and their difference.",
      ["histories", "schedules", "inputs", "configurations"],
      "All starting states, uncertainties with any correlation, noise settings, motions and measurement sequences, in and out of order, for minutes.",
      "The tests compare single derivatives and single generated matrix products, not what becomes of them over a history.",
      ["core/ekf/rtk_ekf_impl.cxx", "core/ekf/rtk_ekf_estimator.cxx", "core/ekf/rtk_ekf.yaml", "core/ekf/ekf_gen/ekf_gen_matrix_manip.py", "core/ekf/ekf_gen/ekf_gen_templates.py"],
      "The filter is generated from a symbolic description with hand-written models and derivatives.",
      observe="The published state and covariance, and the residuals in the log."),
    P("C29", "The Python log reader returns what the writer stored",
      "For every log the writer produced, whatever its streams, record types and field names, and also when data files were cut off, the Python reader returns for each stream of the log and of the logs it amends exactly the complete records in order, each field under its name with its value and shape, and the time as stored and in seconds. Given a directory of logs it returns the latest, whatever else lies there.",
      ["inputs", "histories", "fault_sequences", "configurations"],
      "All logs and chains of logs the writer can write, cut off at any byte, with and without normalisation of the time.",
      "There are no tests of the Python reader.",
      ["common/logging/log_reader.py", "common/logging/log_format.h", "common/logging/log_format.cxx", "common/logging/log_writer.h"],
      "The reader builds a record layout from the description beside each data file.",
      observe="The arrays the reader returns."),
    P("C36", "Measurement models vanish at the truth",
      "The pseudorange, range rate, carrier phase and clock models, built from what a receiver observes at any epochs of a drive, give the noise as residual at the true state, and change with position, velocity, clock and antenna errors by as much as geometry says, scaled by their weights and switches.",
      ["histories", "configurations", "inputs"],
      "All drives, epochs, satellites, clocks, weights and linearisation points near the truth.",
      "The tests evaluate the models at a few fixed states.",
      ["models/prange_model.cxx", "models/relative_carrier_phase_model.cxx", "models/gnss_dynamics_model.h"],
      "Residual functions over poses, velocities and clocks.",
      observe="Residuals at and beside the true state."),
    # -- pure functions
    P("C30", "Attitude and pose algebra obeys its group laws",
      "Composition, inversion, exponential and logarithm of rotations and rigid motions satisfy the group laws and invert each other, for all elements.",
      ["inputs"], "All rotations and poses.", "Tests sample random elements.",
      ["common/math/quat.h", "common/math/dquat.h"], "Closed-form algebra."),
    P("C31", "Analytic residual derivatives match the residuals",
      "For every measurement and motion factor the derivative used by the solver is that of the residual.",
      ["inputs"], "All states and measurements.", "Tests compare at sampled points.",
      ["core/factors", "models"], "Hand-written or automatic derivatives."),
    P("C32", "Integer ambiguity search finds the best integer vectors",
      "The integer least-squares search returns the integer vectors of smallest weighted distance.",
      ["inputs"], "All covariance matrices and float vectors.", "Tests use fixed examples.",
      ["third_party/rtklib"], "Decorrelation and depth-first search."),
    P("C33", "Time and coordinate conversions are inverse to each other",
      "Converting times between the time systems, and positions between Earth-fixed, geodetic and local frames, and back returns the original value.",
      ["inputs"], "All times and positions.", "Tests sample values.",
      ["common/utctime.cxx", "utils/wgs84.cxx"], "Closed-form or iterated conversions."),
    P("C34", "Configuration values are read exactly or reported as missing",
      "Reading a configuration value gives the stored value with its dimension checked, or reports failure.",
      ["inputs", "configurations"], "All configuration documents.", "Tests use fixed documents.",
      ["utils/config.h"], "Typed access to a document tree."),
    P("C35", "The generated filter code equals the dense equations",
      "The sparse code generated for the filter computes what the dense matrix equations compute.",
      ["inputs", "programs"], "All filter definitions and inputs.", "Tests compare one definition at sampled points.",
      ["core/ekf/ekf_gen"], "Symbolic expansion and printing."),
]

PURE = "A pure function of its arguments: no scheduling, time, I/O, fault or party it could depend on, so a simulated schedule or fault decides nothing about it; only input sampling would remain, which is a different technique. "
NOT_APPLICABLE = {
    "C30": PURE + "(Its use inside the filter is exercised by C15-C17.)",
    "C31": PURE,
    "C32": PURE,
    "C33": PURE + "(Ordering of times, on which the merged log order depends, is exercised by C02.)",
    "C34": PURE,
    "C35": PURE + "(The generated filter runs for real in C15-C17.)",
}
