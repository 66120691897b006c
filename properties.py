NA = []
TRUST = ' Trusts the simulated operating system and the independent reference (sim/model.cc); models are small, the search is a sample.'
prop('C01', 'Reported bounds always bracket the optimal value',
     'At every moment of a run, in every configuration, the lower bound the planner holds for any state or belief is at most, and the upper bound at least, the true optimal long-term reward of that state or belief (up to the documented initialisation precision). '
     'This holds for POMDPs, MDPs, racetracks and custom MDPs, for all search strategies and all bound representations.',
     ['inputs', 'configurations', 'histories'],
     'For every valid model, every search strategy, bound representation and set of bound options, and after every backup and every trial of every run (whatever random outcomes were drawn).',
     'The tests compare the final interval of 15 fixed runs with stored numbers; an unsound bound at another state, for another model or option, or in the middle of a run is never looked at.',
     ['src/bounds', 'src/pomdpBounds', 'src/search', 'src/mdps', 'src/parsers', 'src/pomdpCore'],
     [('initial heuristics are valid bounds', 'src/pomdpBounds/BlindLBInitializer.cc, FastInfUBInitializer.cc, src/bounds/RelaxUBInitializer.cc, src/bounds/FullObsUBInitializer.cc'),
      ('backups keep bounds valid', 'src/pomdpBounds/MaxPlanesLowerBound.cc, SawtoothUpperBound.cc, src/bounds/Point*Bound.cc')],
     ('exact reference values at every backup and trial', 'Every stored and queried bound of every node, at every backup and after sampled trials, is compared with an independently computed optimal value.' + TRUST),
     ['BoundPair::update', 'RTDPCore::planFixedTime'])
prop('C02', 'Bounds never get worse, never cross, never become NaN',
     'As a run proceeds the upper bound of a state never increases and its lower bound never decreases (beyond numerical tolerance), for the strategies that interleave both bounds (frtdp, hsvi) and for rtdp. '
     'In every strategy the lower bound of a state never exceeds its upper bound, and no bound ever becomes NaN.',
     ['inputs', 'configurations', 'histories'],
     'For every model (including general POMDPs whose optimal value is unknown), every configuration, and all pairs of moments of a run.',
     'Tests look at one final interval per run; a bound that got worse in between, or two bounds that cross at a state other than the start, go unnoticed.',
     ['src/bounds', 'src/pomdpBounds', 'src/search'],
     [('keep the better of old and new bound', 'PointUpperBound::update, PointLowerBound::update, SawtoothUpperBound::update, MaxPlanesLowerBound::setPlaneForNode'),
      ('pruning keeps dominating elements', 'MaxPlanesLowerBound::prunePlanes, SawtoothUpperBound::prune')],
     ('history of the bounds of every state', 'The recorded history of every state\'s bounds is checked for monotonicity and crossing, also on models without a reference value.' + TRUST))
prop('C03', 'The reason given for ending a run is true, and the final numbers are right',
     'When "solve" ends it gives exactly one reason: it reached the requested regret bound, passed the requested timeout, reached the limit on backups, or was interrupted; the stated reason did happen. '
     'A claim to have reached regret R means that the reported bounds are within R of each other and of the optimal value. The final bounds printed are those of the initial state, and no further search happens after the search said it was done.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'],
     'For every model, strategy, target, timeout, backup limit, clock behaviour and time of interruption.',
     'Tests use one target per model, no timeout that fires, no backup limit and no interruption.',
     ['src/main/zmdp.cc', 'src/search'],
     [('end conditions of the main loop', 'src/main/zmdp.cc doSolve'), ('done test of the strategies', 'src/search/*.cc doTrial')],
     ('simulated clock, signals and per-trial history', 'Claims are checked against the recorded bounds of every trial, the simulated clock and the exact reference value.' + TRUST))
prop('C04', 'Every search makes progress: targets are reached within bounded work',
     'For problems whose reachable state space is finite, the convergent strategies (frtdp, hsvi, lrtdp, hdp) reach the requested regret bound after a number of backups bounded in terms of the size, depth and requested precision of the problem; rtdp drives its upper bound to the optimal value. '
     'No strategy runs trials for ever that do no work and do not end the search.',
     ['inputs', 'configurations', 'histories'],
     'For every small model (POMDPs with up to 1500 reachable beliefs, MDPs, racetracks, custom MDPs), every convergent configuration, and every sequence of random outcomes, including extreme ones.',
     'Tests run 15 fixed models; a search that stalls, cycles or needs ten times the work on another model or another sequence of random outcomes still passes.',
     ['src/search', 'src/mdps/CacheMDP.cc', 'src/bounds'],
     [('trial depth adaptation, excess uncertainty, labelling', 'src/search/FRTDP.cc, HSVI.cc, LRTDP.cc, HDP.cc'), ('work counter', 'RTDPCore::numBackups')],
     ('liveness as a bound on simulated steps', 'Progress is stated as a limit on backups, at least ten times the largest number ever seen on the unchanged program relative to nodes x depth.' + TRUST))
prop('C05', 'An interrupted or timed-out run ends soon and keeps what it achieved',
     'A SIGINT (once or repeatedly, at any instant of the search, including while output is being written) or an expired time limit ends "solve" after at most the current trial, with exit status 0, saying why. What it had achieved is kept: the same trials with the same bounds as an undisturbed run, '
     'and a complete, correct policy file worth at least the lower bound claimed. Jumps of the clock never corrupt anything.',
     ['fault_sequences', 'inputs', 'configurations', 'schedules'],
     'For every instant of delivery (every system call, backup, trial end, clock read, write), any number of signals, any timeout and any forward or backward clock jumps, on every model and configuration.',
     'Tests neither send signals, nor let a timeout expire, nor disturb the clock.',
     ['src/main/zmdp.cc', 'src/search/RTDP.cc', 'src/common/zmdpCommonTime.cc'],
     [('SIGINT flag polled once per trial', 'src/main/zmdp.cc sigIntHandler, doSolve'), ('timeout test', 'src/main/zmdp.cc doSolve')],
     ('signals at any simulated event, simulated clock with jumps', 'Each faulted run is compared with the undisturbed run of the same seed.' + TRUST))
prop('C06', 'The policy file delivers what the planner promises',
     'The policy written by "solve" or "benchmark" is a complete file in the documented format. Its value at the initial belief is at least the lower bound the run claimed; at every belief the model can reach it promises at most the optimal value; some plane applies to every belief that following it can reach; '
     'and following its action labels, or one-step lookahead on it, earns at least what it promises. It can be read back by "evaluate".',
     ['inputs', 'configurations', 'histories'],
     'For every POMDP, every strategy and every combination of lower bound options, at every amount of search after which the policy may be written.',
     'Tests never read the policy that solve writes, let alone execute it.',
     ['src/pomdpBounds/MaxPlanesLowerBound.cc', 'src/bounds/BoundPair.cc', 'src/main/solverUtils.cc'],
     [('planes with masks and action labels', 'MaxPlanesLowerBound::getNewLBPlane, writeToFile'), ('pruning of planes', 'MaxPlanesLowerBound::prunePlanes, deleteAndForward')],
     ('independent execution of the written policy', 'The policy text is parsed by an independent strict reader and executed exactly on the belief tree.' + TRUST))
prop('C07', 'A killed benchmark run keeps its policy and its progress logs',
     'If "benchmark" is killed or interrupted at any instant, a complete policy worth at least the lower bound at the last completed epoch is still on disk, in the policy file or in its .bak copy; before the first epoch an earlier policy is untouched. '
     'The progress logs hold every line that had been logged. The next run with the same files starts normally and leaves no .bak copy behind.',
     ['crash_points', 'histories', 'inputs', 'configurations'],
     'For every point at which the process may die (any system call, shell command, write, backup or trial; also in the middle of a write), every model, strategy and epoch schedule.',
     'Tests never kill a run, and never look at the policy that a benchmark run keeps replacing.',
     ['src/main/solverUtils.cc', 'src/main/zmdp.cc', 'src/common/TestDriver.cc'],
     [('old policy moved to .bak, new one written, .bak removed', 'TestDriver::batchTestIncremental'), ('progress logs flushed line by line', 'TestDriver.cc, RTDP.cc boundsFile')],
     ('crash at any simulated event, only durable files survive', 'Files that survive are compared with the undisturbed run of the same seed, the policy is executed exactly, then the program is restarted on the survivors.' + TRUST))
prop('C08', 'A result that cannot be stored or a failed call is never passed over',
     'If an output file (policy, logs, evaluation results, generated config) cannot be opened, written or closed completely, a helper command fails, or memory runs out, the run does not end with success: it exits nonzero and names the file concerned. '
     'Faults that lose nothing (short writes, interrupted calls) change nothing.',
     ['fault_sequences', 'inputs', 'configurations'],
     'For every output file of every command, every call that can fail, every error number, every capacity of the disk, and every allocation.',
     'Tests have a working disk and enough memory.',
     ['src/main', 'src/common', 'src/pomdpBounds/MaxPlanesLowerBound.cc', 'src/search/RTDP.cc'],
     [('checks of streams after open and after close', 'MaxPlanesLowerBound::writeToFile, StateLog, PolicyEvaluator, TestDriver, embedFiles.h')],
     ('errors injected at any system call or allocation', 'A run with faults must either produce the same files as the undisturbed run of the same seed, or fail with a message.' + TRUST))
prop('C09', 'Damaged, incomplete or wrong input is refused, never trusted',
     'Input that is missing, unreadable, incomplete, damaged or of another kind (a model in the Cassandra, fast or racetrack format, a policy in either format, a config file, the state index and backup log of a script, an option value) is refused with a nonzero exit status and a message, which names the file if it is missing or cannot be opened, '
     'unless what is wrong makes no difference to its meaning. Bad input never makes the program crash, hang, or carry on as if a truncated file were complete. The size of reads makes no difference.',
     ['inputs', 'fault_sequences', 'configurations'],
     'For every input file of every command, every place at which it may be cut or changed, every read that fails or ends early, every value of every option, and every kind of file in place of every other.',
     'Tests read only complete, well-formed files.',
     ['src/parsers', 'src/mdps/RaceTrack.cc', 'src/pomdpBounds/MaxPlanesLowerBound.cc', 'src/search/StateLog.cc', 'src/common/zmdpConfig.cc', 'src/main'],
     [('model readers', 'FastParser.cc, CassandraParser.cc, pomdp_spec.l, pomdp_spec.y, RaceTrack::readFromFile'), ('policy readers', 'MaxPlanesLowerBound::readFromFile'), ('script readers', 'StateLog.cc'), ('options', 'zmdpConfig.cc')],
     ('damage and read errors injected into every input', 'Each run on damaged input must be refused with a message or behave exactly as on an equivalent input; an independent reader says what is equivalent.' + TRUST))
prop('C10', 'The search logs tell what happened, and a logged search can be replayed',
     'With useLogBackups the backups log lists exactly the backups that were performed, in order; the state index gives every state mentioned exactly one id and its full coordinates; the bound values file gives the bounds of each such state at the end of the run. '
     'The Q values file covers every state touched, brackets the optimal Q values and agrees with one-step lookahead on the final bounds. "searchStrategy script" performs exactly the logged backups again, with the same or another bound representation, and with the same one (frtdp, hsvi, rtdp) ends with the same bounds. Without these options no such file is written.',
     ['inputs', 'configurations', 'histories'],
     'For every model, strategy, representation, amount of search, choice of files and command, and every logged history.',
     'Tests switch none of these logs on and never use the script strategy.',
     ['src/search/StateLog.cc', 'src/search/StateIndex.cc', 'src/search/RTDPCore.cc', 'src/search/ScriptedUpdater.cc'],
     [('log of backups', 'RTDPCore::trackBackup, maybeLogBackups'), ('state index', 'StateIndex::getStateId, writeToFile, readFromFile'), ('replay', 'ScriptedUpdater.cc')],
     ('recorded history of all backups against the files', 'The simulator records every backup and every final bound as they happen; files are read by an independent reader; a second simulated run replays the first.' + TRUST))
prop('C11', 'Evaluation results are what the simulated trials earned',
     '"evaluate" and "benchmark" simulate exactly the requested number of trials, each no longer than the limit on steps. The batch means, scores, overall mean, confidence interval and success rate reported are those of the logged trials (with useEvaluationCache: of the reweighted trials), '
     'as many traces are logged as asked for, and the mean over many trials agrees with the exactly computed value of executing the policy.',
     ['inputs', 'configurations', 'schedules'],
     'For every model, policy, number of trials, step limit, number of traces, with and without the evaluation cache, and every stream of random numbers.',
     'Tests do not look at evaluation results beyond one coarse interval; off-by-one errors, wrong weights and biased estimates stay invisible.',
     ['src/exec/PolicyEvaluator.cc', 'src/main/TestDriver.cc', 'src/main/zmdpEvaluate.cc', 'src/common/MDPSim.cc'],
     [('batches, bootstrap and reweighting', 'PolicyEvaluator::getRewardSamples, doBatchSimple, doBatchCache'), ('success rate', 'PolicyEvaluator::doBatch*')],
     ('recomputation from the recorded traces, and the exact policy value', 'All statistics are recomputed from the traces; the expectation is compared with the exact value over 40 simulated evaluations at 6 sigma. Known finding: reweighting is biased where outcomes stay unseen.' + TRUST))
prop('C12', 'Simulated trials are fair histories of the model under the policy',
     'Every simulated trial is a possible history of the model: it starts in the initial state, each step follows a possible outcome to exactly its successor state, and it ends exactly when a terminal state or the step limit is reached. Outcomes are drawn with the model\'s probabilities. '
     'The action taken is the best one under the policy at the planner\'s current belief (one-step lookahead), is a function of that belief alone, and stays so when the simulator runs another model than the one planned for.',
     ['inputs', 'configurations', 'schedules'],
     'For every model and pair of planner and simulator models, every policy, every history of outcomes and every stream of random numbers, including extreme draws.',
     'Tests never inspect a trace; a biased draw, a wrong belief update or an occasional suboptimal action does not move their coarse means.',
     ['src/common/MDPSim.cc', 'src/exec', 'src/pomdpCore/Pomdp.cc', 'src/mdps'],
     [('outcome draw and belief update', 'MDPSim::performAction, Pomdp::getNextState'), ('action choice', 'MDPExec::chooseAction, BoundPairExec, MaxPlanesLowerBound::chooseAction')],
     ('seeded randomness, martingale tests and reference model', 'Traces are followed step by step in an independent model; draws are tested with Freedman martingale bounds whose false alarm probability is below 1e-12.' + TRUST))
prop('C13', 'A run is determined by its input, not by its surroundings',
     'With the same model, options and random numbers a search takes the same course and writes the same policy, whatever the wall clock shows or does, whatever uninitialised memory contains, however reads are split, whatever older output files lie around, and whatever amount of stack is available. '
     'Observing it does not change it either: verbose output, search logs, and evaluations during "benchmark" leave the search as it is under "solve". Options mean the same on the command line, in short form, in any order and in a config file; the command line overrides the config file, which overrides the defaults; a generated config file changes nothing.',
     ['inputs', 'configurations', 'schedules', 'fault_sequences'],
     'For every model, strategy, set of options and amount of search, every behaviour of the clock, every content of fresh memory, every way of splitting reads, and every distribution of options over command line and config file.',
     'Tests run every configuration once, under one clock, with one memory layout, and compare coarse intervals.',
     ['src/search', 'src/bounds', 'src/pomdpBounds', 'src/main', 'src/common/zmdpConfig.cc'],
     [('the search uses no clock and no random numbers (frtdp, hsvi, hdp)', 'src/search'), ('options', 'src/common/zmdpConfig.cc, src/main/zmdp.cc'), ('evaluation leaves the bounds alone', 'src/main/TestDriver.cc, src/exec/BoundPairExec.cc')],
     ('two simulated runs that differ in one environment choice', 'The bounds, counters and backups of every trial are compared bit by bit, the policies byte by byte.' + TRUST))
prop('C14', 'A benchmark run evaluates, logs and ends when it should',
     '"benchmark" evaluates the policy at every epoch the schedule asks for (first epoch, epochs per magnitude, and the end of the run) and at no other time; the time that counts is search time, so slow evaluations change neither the schedule nor the end. It ends at the first trial after which the target regret, the bound values, the time limit or the backup limit given are reached, and not before. '
     'The bounds log has the right numbers for every trial (of trials within 1e-4 of each other in time, one), the evaluation and storage logs one line per epoch.',
     ['inputs', 'configurations', 'schedules', 'histories'],
     'For every model, strategy, schedule, time limit and end condition, every distribution of time over trials and evaluations.',
     'Tests look at one line of one log of a few runs, on the real clock.',
     ['src/main/TestDriver.cc', 'src/search/RTDPCore.cc'],
     [('schedule and end conditions', 'TestDriver::batchTestIncremental'), ('bounds log', 'RTDPCore::planFixedTime')],
     ('simulated clock; logs against the recorded trials', 'In simulated time only backups and (in half of the runs) evaluations take time; every line of every log and every end condition is recomputed from the recorded trials.' + TRUST))
prop('C15', 'Every run ends orderly: no crash, assertion failure or memory error',
     'Whatever valid input and options a run is given and whatever happens to it, it ends, and ends orderly: no crash, no failed assertion, no endless loop, no access to memory that is not its own, no use of freed or uninitialised memory that shows, and no undefined behaviour.',
     ['inputs', 'configurations', 'fault_sequences', 'histories'],
     'For every run that the other properties speak of: every model, command, option, environment and fault sequence.',
     'Tests run 15 fixed commands, without sanitizers.',
     ['src'],
     [('all of the program', 'src')],
     ('sanitizers under the simulated runs of all properties', 'The program is built with the address and undefined behaviour sanitizers and the assertions of libstdc++; scenarios of all other checks are run.' + TRUST))
prop('C16', 'All configurations agree on the value of a problem',
     'Whatever strategy, bound representation, initial bounds, pruning and other options are used, and after whatever amount of search, the intervals reported for one problem all overlap: no configuration may report a lower bound above the upper bound of another.',
     ['inputs', 'configurations'],
     'For every model, including general POMDPs whose optimal value cannot be computed, every set of configurations, and every amount of search.',
     'Tests compare each configuration with stored intervals for three models.',
     ['src/search', 'src/bounds', 'src/pomdpBounds'],
     [('bounds are sound', 'src/bounds, src/pomdpBounds')],
     ('differential simulation of several configurations', 'Two to four random configurations of the same general model are run under one seed, and the best bounds of all trials are compared.' + TRUST))
prop('C17', 'A model means the same however it is written',
     'In the Cassandra format names and numbers, wildcards, rows and matrices, "uniform" and "identity", order of statements, comments, blanks, line breaks and overriding statements are only notation: all spellings of a model give the identical search and policy. The fast parser reads the models it supports as the default parser does. The way the file is delivered (sizes of reads) does not matter.',
     ['inputs', 'configurations', 'fault_sequences'],
     'For every model, every spelling of it, and every way of splitting reads of the file.',
     'Tests read a handful of files, each with one parser and compare coarse intervals.',
     ['src/parsers', 'src/pomdpCore/Pomdp.cc', 'src/mdps/GenericDiscreteMDP.cc'],
     [('default parser', 'src/parsers/pomdp_spec.l, pomdp_spec.y, sparse-matrix.c, imm-reward.c, CassandraParser.cc'), ('fast parser', 'src/parsers/FastParser.cc')],
     ('differential simulation of several spellings', 'The same seed is run on random spellings of one model; every trial is compared bit by bit (between parsers: intervals have to overlap, since they round differently).' + TRUST))
prop('C18', 'LifeSurvey: generated models and the path-and-react policy are as described',
     'For every valid .lifeSurvey map, gen_LifeSurvey writes exactly the POMDP that the map describes (states reachable by legal moves, move, sample and lookahead costs, rewards per region, illegal-move penalty, life priors or target list, sensor distributions), the same with numeric and full identifiers. '
     'The path that the "lspath" policy plans is legal, runs from the start to an exit, and no legal path has a larger expected number of regions with life seen; its value is reported correctly. In evaluation lspath acts by its documented heuristics (look once per cell, sample where life was seen, prefer cells near the path, NE over SE over E) and keeps track of the position; "lsblind" always samples eastward. '
     'genTargetLocations places targets with the given priors and lists and draws the same targets; dumpMap writes the map it read. Damaged surveys are refused; failing reads and writes are reported.',
     ['inputs', 'schedules', 'fault_sequences', 'configurations'],
     'For every small map (heights 1 to 5, odd, with obstacles), all priors, sensors and costs, every sequence of observations, every content of fresh memory and every failing open, read, write or close.',
     'No test touches LifeSurvey at all.',
     ['src/pomdpModels/lifeSurvey', 'src/main/zmdp.cc'],
     [('reachable states, outcomes and observations', 'LSModel::writeToFile, getOutcomes, getObservations'), ('best path by branch and bound', 'LSPathAndReactExec::getBestExtension, getValueIsDominated'), ('heuristics', 'LSPathAndReactExec::chooseAction, advanceToNextState'), ('map file', 'LSModelFile::readFromFile')],
     ('simulated tools with faults and seeded randomness, independent description of the domain', 'Files and traces are compared with a model of the domain written from its description (sim/checks_survey.cc); the best path with exhaustive search on small maps. Maps of even height are left out (reader and writer of the program disagree on their layout).' + TRUST))
