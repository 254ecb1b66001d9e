"""Writes properties.jsonl (kept as a script so that wording and anchors stay in one place)."""
import json, os

S = "src/openclsim/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
                     mechanism=[dict(name=n, where=S + w) for n, w in mech],
                     observe_at=list(observe)),
    ))


prop("C01", "Shifting material conserves it",
     "Whenever an activity shifts an amount from an origin to a destination, exactly the amount that is taken out of the origin is put into the destination, for the same content, in one withdrawal and one delivery, and nothing else changes any level. The amount is taken out at the moment the start of the shift is logged and delivered at the moment its stop is logged, so in between it is in neither. This also holds when the processor is itself the origin or the destination.",
     ["inputs", "schedules"],
     "Every amount, capacity, initial level, phase (load/unload/both), duration, loading-rate object and content id; any interleaving with other activities between the wait points of the shift.",
     "Tests run a handful of amounts on one vessel; conservation needs every amount, level, duration model and every level change other processes make while the shift waits.",
     ["core/processor.py", "model/shift_amount_activity.py", "core/events_container.py"],
     [("ShiftAmountActivity.main_process_function", "model/shift_amount_activity.py"), ("Processor.process", "core/processor.py"), ("EventsContainer.put/get", "core/events_container.py")],
     ["container levels of origin and destination before and after the activity"])

prop("C02", "A shift moves the lesser of request, stock and free space, never nothing",
     "The amount an activity shifts is the smallest of the requested amount (if one is given), the amount available at the origin and the free space at the destination, at the moment it obtained the destination's resource (or tries again because others changed the contents meanwhile); it is always positive. The shift starts only at a moment at which that amount is in stock and fits, so levels never drop below zero or exceed the capacity as long as each site admits one activity at a time. An empty origin or a full destination is refused with an error, and then nothing is changed; whatever is in stock and fits is shifted, also when amounts are not whole numbers.",
     ["inputs", "schedules"],
     "Every amount, level and capacity, and any change of the levels by other activities up to the moment the resources for the shift are obtained.",
     "The existing tests never have two activities compete for the same stock or space while one of them waits for its resources.",
     ["model/shift_amount_activity.py", "core/processor.py", "core/events_container.py"],
     [("ShiftAmountActivity._amount_is_available", "model/shift_amount_activity.py"), ("Processor.check_possible_shift", "core/processor.py"), ("Processor.determine_processor_amount", "core/processor.py")],
     ["levels of the containers", "amount processed"])

prop("C03", "Reservations match what is shifted",
     "When a shift is registered, its requested amount (without one: the smaller of the two capacities) is added to the reserved level of the destination and subtracted from that of the origin, for the same content, without moving anything. After the shift, its net effect on these reserved levels is exactly the amount it really moved.",
     ["inputs", "schedules"],
     "Every requested amount, level, capacity and content id, and any change of the reservations by other activities while the shift waits.",
     "Tests look at final levels only; whether the reservation containers balance for all amounts and interleavings is not sampled.",
     ["model/shift_amount_activity.py", "core/processor.py"],
     [("ShiftAmountActivity.make_container_reservation", "model/shift_amount_activity.py"), ("Processor.determine_reservation_amount", "core/processor.py")],
     ["levels of the reservation containers"])

prop("C04", "Containers keep their levels and fire their level events exactly when due",
     "A container reports for every content its initial level plus all puts minus all gets (of whatever sign), right after each of them, and an unchanged capacity. An event asked for a level condition (greater, greater or equal, less, less or equal, full, empty) fires as soon as a change of that content makes the condition true, immediately if it already holds, and not before.",
     ["inputs", "histories"],
     "Every sequence of puts and gets with arbitrary amounts on any number of contents, every level and operator asked for at any time.",
     "Tests use a few fixed puts and gets; the events must be right for every history of changes.",
     ["core/events_container.py", "core/container.py"],
     [("EventsContainer.put/get/_callback", "core/events_container.py"), ("EventsContainer.get_container_event/update_container_events", "core/events_container.py"), ("EventsContainer.initialize_container", "core/events_container.py")],
     ["get_level", "get_capacity", "state of the returned events"])

prop("C05", "Activities log exactly one correctly timed START and STOP everywhere",
     "A basic, move or shift activity writes exactly one start and one stop entry, start first, to its own log, with the id of the activity and with the times at which the activity really started and stopped. The same pair, with the same times, is written for a move to the log of the mover, for a shift to the logs of processor, origin and destination (once if two of them are the same object), and for a basic activity to every additional log. The before- and after-processing of plugins lies outside that interval.",
     ["inputs", "schedules"],
     "Every duration, number of additional logs, participating object and time at which the waits of the activity end.",
     "Tests compare a few logs; the pairing and the times must hold for all durations, waits and lists of logs.",
     ["model/basic_activity.py", "model/move_activity.py", "model/shift_amount_activity.py", "core/processor.py", "core/movable.py"],
     [("BasicActivity.main_process_function", "model/basic_activity.py"), ("MoveActivity.main_process_function", "model/move_activity.py"), ("ShiftAmountActivity.main_process_function", "model/shift_amount_activity.py"), ("Movable.move", "core/movable.py"), ("Processor.process", "core/processor.py")],
     ["logs"])

prop("C06", "A sequence runs its sub-activities one after the other, in order",
     "In a sequential activity the first sub-activity may start when the sequence starts and every other sub-activity exactly when the one before it is done. The sequence logs its own start, then a start and stop entry for every sub-activity in order, and its own stop when the last sub-activity is done.",
     ["inputs", "programs", "schedules"],
     "Any list of sub-activities of any length, with arbitrary durations.",
     "Tests use two or three sub-activities with fixed durations.",
     ["model/sequential_activity.py", "model/base_activities.py"],
     [("SequentialActivity.main_process_function", "model/sequential_activity.py"), ("RegisterSubProcesses.register_sequential_subprocesses", "model/base_activities.py")],
     ["logs", "start events of the sub-activities"])

prop("C07", "A parallel activity starts everything together and ends with the last",
     "All sub-activities of a parallel activity may start at the moment the parallel activity starts, none before. It logs a start entry for each of them at that moment and exactly one stop entry for each at the time that sub-activity is done, and it stops exactly when the last one is done.",
     ["inputs", "programs", "schedules"],
     "Any list of sub-activities, in any order of finishing, including several that finish at the same time.",
     "Tests use two sub-activities; the orders in which n sub-activities finish grow factorially.",
     ["model/parallel_activity.py", "model/base_activities.py"],
     [("ParallelActivity.main_process_function", "model/parallel_activity.py"), ("RegisterSubProcesses.register_parallel_subprocesses", "model/base_activities.py")],
     ["logs", "start events of the sub-activities"])

prop("C08", "Loops run their body the right number of times",
     "A repeat activity runs its complete list of sub-activities exactly the given number of times (at least one). A while activity stops after the first complete pass at whose end its condition has occurred since the loop started, and not before (if the condition occurs at the very instant a pass ends, either is allowed); every pass runs all sub-activities again, in order, each starting when the one before it is done.",
     ["inputs", "programs", "schedules"],
     "Every number of repetitions, any list of sub-activities, arbitrary durations per pass and any time at which the condition occurs.",
     "Tests use a few passes with one condition; the count and the stop rule must hold for every number of passes and every time of the condition.",
     ["model/while_activity.py", "model/base_activities.py", "model/helpers.py"],
     [("ConditionProcessMixin.main_process_function", "model/while_activity.py"), ("RepeatActivity", "model/while_activity.py"), ("WhileActivity", "model/while_activity.py")],
     ["number of start entries per sub-activity", "time of the stop entry"])

prop("C09", "An activity starts at its start event, and waiting is logged exactly",
     "An activity with a start condition begins at the first moment at which both its parent lets it start and the condition has occurred since the activity was registered, never earlier or later. If it had to wait for the condition after its parent let it start, it logs the waiting from the one time to the other on its own log and on every additional log, and no waiting otherwise.",
     ["inputs", "schedules"],
     "Every pair of times at which the parent and the condition occur, and any number of additional logs.",
     "Tests use a few fixed start conditions.",
     ["model/base_activities.py"],
     [("GenericActivity.delayed_process", "model/base_activities.py")],
     ["logs", "time at which the activity starts"])

prop("C10", "Condition expressions mean what they say",
     "A condition expression occurs exactly when it should: a list or an 'and' when all of its members have occurred, an 'or' when the first has, an activity condition when every activity of that name (or id) is done, a time condition at the given time or at once if that has passed, a container condition when the level of that content meets it. Anything that is not a valid expression is refused with an error instead of being ignored.",
     ["programs", "inputs"],
     "Expressions with any nesting and any number of members, arbitrary times of the member events, levels, operators and names.",
     "Tests evaluate a few expressions; the meaning is a fold over arbitrary nested expressions.",
     ["model/base_activities.py"],
     [("GenericActivity.parse_expression", "model/base_activities.py")],
     ["time at which the resulting event fires"])

prop("C11", "Resources are held while used and given back, except those kept",
     "A move or shift activity holds every resource it needs (the mover's; the processor's, origin's and destination's) from before it starts until after it stops, and never asks for a resource it already holds or that was handed to it. When it ends, it has released all of them except those it was told to keep, which stay available to the activity that shares them. While waiting to start, a shift may give back what it holds and ask for it again.",
     ["inputs", "schedules"],
     "Every combination of needed, handed-over and kept resources, and any time at which requests are granted.",
     "Tests use one or two kept resources; the combinations of handed-over and kept resources and grant times are not covered.",
     ["model/base_activities.py", "model/shift_amount_activity.py", "model/move_activity.py", "model/basic_activity.py"],
     [("GenericActivity._request_resource/_release_resource", "model/base_activities.py"), ("ShiftAmountActivity.main_process_function", "model/shift_amount_activity.py"), ("MoveActivity.main_process_function", "model/move_activity.py")],
     ["requests and releases seen by the resources"])

prop("C12", "A move takes distance over speed, and ends at the destination",
     "A move activity takes exactly the distance between where the mover is and the destination, divided by its current speed, where the speed includes the engine order and, if the speed depends on the load, the filling degree at that time; an explicit duration replaces it. Until it ends the mover is where it was, and from then on at the location of the destination.",
     ["inputs", "histories"],
     "Every pair of locations, speed, engine order, filling degree, and explicit duration.",
     "Tests check a few routes with the default engine order.",
     ["core/movable.py", "model/move_activity.py", "core/locatable.py"],
     [("Movable.move/compute_duration/current_speed", "core/movable.py"), ("ContainerDependentMovable.v", "core/movable.py"), ("MultiContainerDependentMovable.v", "core/movable.py"), ("Routable", "core/movable.py"), ("MoveActivity.main_process_function", "model/move_activity.py")],
     ["times of the log entries", "location after the move"])

prop("C13", "Processing takes the time the amount requires",
     "The time between start and stop of a shift is the given duration; without one, the loading or unloading time of the processor for the amount that is actually shifted plus its manoeuvring time (in minutes). A rate that is a number gives amount divided by rate; a rate that is a function is given the level of that content before and after: of the destination when loading, of the origin when unloading.",
     ["inputs"],
     "Every amount, rate, level, duration and manoeuvring time.",
     "Tests check a few linear rates.",
     ["core/processor.py", "model/shift_amount_activity.py"],
     [("Processor.determine_processor_amount", "core/processor.py"), ("LoadingFunction.loading", "core/processor.py"), ("UnloadingFunction.unloading", "core/processor.py")],
     ["times of start and stop entries"])

prop("C14", "The delay plugin prolongs an activity by exactly the given fraction",
     "An activity with a delay plugin is followed by a delay of exactly the given percentage of the time that has passed since the activity started; the delay is logged as waiting, with a label that says so, from the end of the activity to the end of the delay. Without a percentage there is no delay and no entry.",
     ["inputs"],
     "Every percentage, distribution and duration of the activity.",
     "Tests check one percentage.",
     ["plugins/delay.py", "model/base_activities.py"],
     [("DelayPlugin.post_process", "plugins/delay.py"), ("PluginActivity.delay_processing", "model/base_activities.py")],
     ["logs", "end time of the activity's process"])

prop("C15", "Weather-bound work starts only in a weather window, and as early as possible",
     "An activity with a weather criterion starts at the earliest moment from which the criterion is met during the whole required window; it waits exactly until then and logs the waiting, and does not wait if that is now, in particular never if the data always meet the criterion. Each sample holds until the next one, and the data repeat when the simulation lasts longer than they do (each repetition taken on its own, up to nine). At the exact instants at which the weather changes, either side is allowed.",
     ["inputs"],
     "Every weather series, limit, window length and start time.",
     "Tests check one series with one limit.",
     ["plugins/weather.py"],
     [("WeatherPluginActivity.pre_process", "plugins/weather.py"), ("WeatherPluginActivity.check_constraint/process_data", "plugins/weather.py")],
     ["logs", "time at which the activity starts"])

prop("C16", "Every activity is scheduled exactly once per registration",
     "Registering a list of activities schedules each of them and each of their sub-activities, at any depth, exactly once with a fresh process, makes each findable by its name and by its id, and makes the reservations of each shift once. Two different activities with the same name in that list are refused.",
     ["programs"],
     "Activity trees of any shape, registered for the first time or again.",
     "Tests register a few fixed trees.",
     ["model/helpers.py", "model/base_activities.py"],
     [("register_processes", "model/helpers.py"), ("get_subprocesses", "model/helpers.py"), ("GenericActivity.register_process", "model/base_activities.py")],
     ["processes created", "the registry"])

prop("C17", "The critical path is the set of longest chains of recorded activities",
     "A recorded activity is marked critical exactly when it lies on a longest chain (in total duration) of activities each depending on the one before. Activities that take no time are never critical, but chains continue through them. Of equally long chains that end at different times, those ending at one of these times are marked. The result has every row recorded by an object once, with its times as recorded; a row of an activity by itself is added only if it is critical and no object recorded that activity. All rows of one activity get the same verdict, and there is one for any number of activities and dependencies. Times count to a hundredth of a second.",
     ["inputs", "programs"],
     "Every set of recorded activities with any times, and every consistent dependency list (an activity starts when those it depends on have ended).",
     "Tests check a few small simulations.",
     ["critical_path/simulation_graph.py", "critical_path/base_cp.py"],
     [("SimulationGraph.__construct_graph/__find_critical_edges", "critical_path/simulation_graph.py"), ("BaseCP.__compute_critical_path/_remove_duplicate_activities", "critical_path/base_cp.py")],
     ["the data frame with the mark is_critical"])

prop("C18", "Recording for the critical path does not change the simulation",
     "A simulation in the recording environment makes the same steps at the same times as in the plain environment. It records for every completed step, in order, the times before and after, the id, kind and priority of the event, and for every event that was scheduled which event caused it.",
     ["programs", "schedules"],
     "Every simulation: each step with any event, any number of newly scheduled events.",
     "Tests compare a few simulations.",
     ["critical_path/dependencies_from_simpy_step.py"],
     [("CriticalPathEnvironment.step", "critical_path/dependencies_from_simpy_step.py")],
     ["recorded steps and causes"])

prop("C19", "The exported activity tree contains every activity under its parent",
     "The flattened activity tree lists every activity exactly once, a parent before its sub-activities and sub-activities in order, and gives each its direct parent and its depth in the tree.",
     ["programs"],
     "Activity trees of any shape and depth.",
     "Tests export small trees only.",
     ["io.py"],
     [("get_tree_as_list", "io.py")],
     ["the returned list"])

prop("C20", "Plugins run in order of priority, once before and once after the activity",
     "Every plugin registered with an activity runs exactly once before and once after it, one after the other in order of priority (in order of registration when priorities are equal), the next only when the one before has finished. Each receives the activity, its log, the environment and, afterwards, the times at which the activity really started.",
     ["inputs", "programs"],
     "Any number of plugins with any priorities and durations.",
     "Tests register one or two plugins.",
     ["model/base_activities.py"],
     [("PluginActivity.register_plugin/pre_process/post_process", "model/base_activities.py")],
     ["calls of the plugins"])

prop("C21", "Log entries record what was logged, with the state of the object",
     "Every entry made on a log is kept, in order, with exactly the time, activity, state and label it was made with, and the state of the object (its containers' levels and its location) at that moment. Labels that do not say what they refer to are refused.",
     ["inputs", "histories"],
     "Any history of log entries with any times, ids, states, labels and object states.",
     "Tests compare a few logs.",
     ["core/log.py", "core/container.py", "core/locatable.py"],
     [("Log.log_entry_v1", "core/log.py"), ("Log.log", "core/log.py"), ("get_state", "core/container.py")],
     ["the log"])

prop("C22", "A routable object sails over its route or its path",
     "A routable object with a route takes, in either direction, the sum of the geodesic lengths of all legs of the route divided by its speed; asking it to sail between other places than the two ends of its route (a hundredth of a degree apart counts as the same place) is refused with an error, and nothing changes. With a path, which goes before a route, the distance is the share of the path that lies between the two places times the geodesic length of the path. With neither, the move is refused. Sailing to a place, or along a line, takes the geodesic distance divided by the speed and ends there.",
     ["inputs"],
     "Every route of any number of nodes with legs of any lengths, every path, every pair of places, speed and load.",
     "Tests sail over one small graph and one line.",
     ["core/movable.py"],
     [("Routable.compute_distance", "core/movable.py"), ("Routable.move_to_geometry/pass_linestring", "core/movable.py"), ("Movable.move/compute_duration", "core/movable.py")],
     ["the duration of the move", "the position", "the error"])

prop("C23", "Dependencies taken from the recorded simulation follow its causes",
     "After a simulation recorded in the recording environment, a recorded activity depends on another exactly when that other one is what last took time in its chain of causes: going from the timeout of the activity up through the events that caused it, events and timeouts that take no time are passed over. This holds for simulations of any length, any number of independent chains, and times at any fraction of a second. Every timeout that takes time during an activity (moving, loading, unloading, basic activities, delays, waiting for the weather) carries the id of that activity.",
     ["programs", "histories"],
     "Every recorded simulation: any causes, kinds of events and times.",
     "Tests compare a few small simulations.",
     ["critical_path/dependencies_from_simpy_step.py", "core/processor.py", "core/movable.py", "model/basic_activity.py", "model/base_activities.py"],
     [("DependenciesFromSimpy.__set_dependency_list/_find_cp_act", "critical_path/dependencies_from_simpy_step.py"), ("Processor.process", "core/processor.py"), ("Movable.move", "core/movable.py"), ("PluginActivity.delay_processing", "model/base_activities.py")],
     ["the dependency list", "the values of the timeouts"])

prop("C24", "Dependencies taken from the recorded activities follow the order at each object",
     "From the table of recorded activities alone, an activity that an object recorded depends on exactly the other recorded activities that end at the moment it starts at the same object; if one of those was waiting, it depends on all activities that end at that moment, at whatever object. Each dependency is listed once, the rows of activities by themselves do not count, and the table is not changed.",
     ["inputs"],
     "Every table of recorded activities with any objects, states and times.",
     "Tests compare a few small simulations.",
     ["critical_path/dependencies_from_recorded_activities.py"],
     [("DependenciesFromRecordedActivities.__set_dependency_list", "critical_path/dependencies_from_recorded_activities.py")],
     ["the dependency list"])

prop("C25", "Exported logs, tables and charts say what happened",
     "The exported log of an object has one row for each log entry, with its time, state, label and the state of the object, in order of time and at equal times in the order logged; activities go by their name where the id map gives one. The exported ranges have one row for each START of an activity, numbered from one, with the STOP that ended it (none if it has not stopped), its duration in seconds and the levels at both moments; the activity log has these for all activities of the tree, also if some have not started. The tables of activities, of the objects they use and of objects list each once with names, ids and roles. The Gantt chart has a block from start to stop for each period of each activity on each object, and no other; the step chart shows each level over time. What a composite activity logs about a sub-activity is a period of its own. A table that is written to a file has the same rows there.",
     ["inputs", "histories"],
     "Every log and every activity tree.",
     "Tests do not look at what is exported or drawn.",
     ["plot/log_dataframe.py", "io.py", "plot/vessel_planning.py", "plot/step_chart.py"],
     [("get_log_dataframe", "plot/log_dataframe.py"), ("get_ranges_dataframe/get_activity_log/get_activities/get_activity_resources/get_concepts", "io.py"), ("get_gantt_chart", "plot/vessel_planning.py"), ("get_step_chart", "plot/step_chart.py")],
     ["data frames", "chart data"])

prop("C26", "The table of recorded activities has each period in each log once",
     "For every period between START and STOP, or between WAIT_START and WAIT_STOP, in the log of an object or of an activity, the table of recorded activities has exactly one row with the activity's id and name, the object (or that it is the activity itself), start, end, duration and whether it was active or waiting, in order of the starts. This holds also for periods that take no time and periods that follow each other immediately. Rows of one activity with the same start and end share one id, others do not. Objects with the same name are refused.",
     ["histories"],
     "Every set of logs of a finished simulation: any number of periods, activities and objects.",
     "Tests compare a few small simulations.",
     ["critical_path/base_cp.py"],
     [("BaseCP.combine_logs/reshape_log/add_unique_activity", "critical_path/base_cp.py")],
     ["the data frame of recorded activities"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
