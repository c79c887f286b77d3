"""Single source of truth for properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
M = "qadence/ml_tools/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Training killed at any instant restarts from one complete checkpoint",
  "If a training process is killed at any instant, training restarted on the same log folder always starts without error. "
  "The model parameters, optimizer state and iteration counter it starts from all belong to one and the same checkpoint: the most recent one whose saving had completed before the kill, or the one being saved at that moment. "
  "If no checkpoint was complete, training starts from the given initial model with a fresh optimizer at iteration 0.",
  ["crash_points", "histories", "configurations"],
  "Every point between two file-system effects (including inside a file write) of every sequence of training runs, over model kinds, optimizers, checkpoint periods and directory listing orders.",
  "The tests save and load complete checkpoints in one process; none kills the writer, so torn, missing or mismatched model/optimizer files are never seen.",
  [M+"callbacks/saveload.py", M+"callbacks/callbackmanager.py", M+"callbacks/callback.py"],
  [("writing model and optimizer checkpoint files", M+"callbacks/saveload.py:write_checkpoint"),
   ("choosing and loading the newest checkpoint", M+"callbacks/saveload.py:load_checkpoint, get_latest_checkpoint_name"),
   ("loading at the start of fit", M+"callbacks/callbackmanager.py:start_training")],
  [("log folder", "the durable state: model_*.pt / opt_*.pt files", "config.log_folder")],
  ["parameters/optimizer state/iteration visible to a train_start callback", "files in the log folder"])

p("C02", "Stopping and resuming training continues exactly where it left off",
  "When training that saved checkpoints is run again on the same log folder, in the same or in another process, it starts with exactly the parameters, optimizer state and iteration number of the newest checkpoint there. "
  "Continuing from it for n epochs produces exactly the parameters and optimizer state that the same number of further steps of the original training would have produced. "
  "Every checkpoint file restores exactly the state the training had at the iteration it is named after, however many checkpoints, restarts or model and optimizer kinds are involved.",
  ["histories", "configurations", "inputs"],
  "All histories of fits, graceful stops and process restarts over plain modules, quantum models and quantum neural networks, torch and gradient-free optimizers, checkpoint periods and iteration counts up to several digits.",
  "Tests check one save/load pair; the guarantee is over histories of several runs, periods and restarts, and over the whole optimizer state.",
  [M+"callbacks/saveload.py", M+"callbacks/callbackmanager.py", M+"trainer.py", M+"models.py", "qadence/model.py"],
  [("checkpoint naming and newest-selection", M+"callbacks/saveload.py:get_latest_checkpoint_name, write_checkpoint"),
   ("restoring parameters", M+"callbacks/saveload.py:load_model; qadence/model.py:load_params_from_dict"),
   ("restoring the iteration counter", M+"callbacks/callbackmanager.py:start_training; trainer.py:_train")])

p("C03", "Storage errors never abort training or damage earlier checkpoints",
  "If storing a checkpoint fails at any point (disk full, I/O error, short write), training still completes and its parameters, metrics and callbacks are exactly those of a run without the failure. "
  "Checkpoints that were completely stored earlier remain loadable with their original content. "
  "A later restart takes model, optimizer and iteration from one completely stored checkpoint, never mixing two of them; if reading fails it either raises an error or starts entirely from the initial state.",
  ["fault_sequences", "histories"],
  "Every placement and combination of write, close, rename, create and read failures over every training history.",
  "No test injects a storage failure; failures are handled in except branches that tests never enter.",
  [M+"callbacks/saveload.py", M+"callbacks/callback.py"],
  [("failure handling around checkpoint writes", M+"callbacks/saveload.py:write_checkpoint"),
   ("failure handling around loads", M+"callbacks/saveload.py:load_model, load_optimizer")])

p("C04", "Interrupting an epoch stops training gracefully, once, with a final checkpoint",
  "If the user interrupts training (KeyboardInterrupt) at any point while an epoch is executing, training returns normally with the current model and optimizer and runs no further epoch. "
  "The end-of-training actions run exactly once, the metric tracker is closed exactly once, and, when periodic checkpoints are enabled, the last checkpoint on disk restores exactly the returned model and optimizer. "
  "Training again afterwards works normally.",
  ["schedules", "crash_points", "configurations"],
  "Every point of execution inside an epoch at which an interrupt can be delivered, including inside callbacks, checkpoint writes, optimizer steps and validation.",
  "Asynchronous interrupts arrive between arbitrary operations; tests raise none.",
  [M+"trainer.py", M+"train_utils/base_trainer.py", M+"callbacks/callbackmanager.py"],
  [("interrupt handling in the epoch loop", M+"trainer.py:_train_epochs"),
   ("end of training", M+"trainer.py:_train, _fit_end")])

p("C05", "Callbacks fire at exactly the promised stages and iterations",
  "During a fit, stages occur in the documented order: train start, then for each epoch its start, its batches, its end and any validation, then train end, with one epoch per iteration index from the starting iteration through starting iteration plus the configured maximum. "
  "A user callback attached to a stage fires exactly once for each occurrence of that stage whose iteration is a non-zero multiple of its period and whose condition holds, and always at train start and train end. "
  "At an epoch-end stage it sees that epoch's iteration and the mean loss and metrics over that epoch's batches, at a batch-end stage those of the batch, and at a start stage the iteration of the epoch completed last.",
  ["histories", "configurations", "fault_sequences"],
  "All configurations of periods, stages, conditions, batch counts and validation periods, and all histories of consecutive fits, early stops and interrupts.",
  "Tests count calls for a few configurations; the stage automaton must hold for all periods, histories and stop points.",
  [M+"trainer.py", M+"train_utils/base_trainer.py", M+"callbacks/callback.py", M+"callbacks/callbackmanager.py"],
  [("stage decorator", M+"train_utils/base_trainer.py:callback"), ("firing rule", M+"callbacks/callback.py:_should_call"),
   ("registration", M+"callbacks/callbackmanager.py:initialize_callbacks, add_callback")])

p("C06", "Metrics are tracked exactly once, at the right iteration, in an open tracker",
  "With either tracking tool, every periodic metric write happens exactly at the configured training and validation periods, under the iteration it belongs to, with the mean of that epoch's values; at train end the last epoch's values are written under the final iteration. "
  "The tracker is opened before the first record and closed after the last, exactly once per training run, and hyperparameters, figures and the model are recorded when and only when configured. "
  "On a resumed run the tracker continues at the loaded iteration.",
  ["histories", "configurations", "fault_sequences"],
  "All write/plot/validation periods, tracking tools, resumes, interrupts and early stops.",
  "Tests look at single configurations; the record-for-record history of the tracker over resumes and stops is not examined.",
  [M+"callbacks/writer_registry.py", M+"callbacks/callback.py", M+"callbacks/callbackmanager.py"],
  [("writers", M+"callbacks/writer_registry.py"), ("metric callbacks", M+"callbacks/callback.py:WriteMetrics, PlotMetrics, LogHyperparameters, LogModelTracker"),
   ("open/close", M+"callbacks/callbackmanager.py:start_training, end_training")])

p("C07", "Best-only checkpointing keeps exactly the best validated model",
  "With best-only checkpointing, the stored best checkpoint at every moment restores the model and optimizer of the most recent validation that the user's criterion accepted as an improvement over the best validation loss accepted so far. "
  "No checkpoint is written for a validation the criterion rejects, and no periodic checkpoints are written. "
  "Without a criterion nothing is saved.",
  ["histories", "schedules", "configurations"],
  "All sequences of validation losses (plateaus, ties, NaN, regressions), validation periods, criteria and tolerances.",
  "Tests feed a few losses; the guarantee is over every loss history.",
  [M+"callbacks/callback.py", M+"callbacks/callbackmanager.py", M+"callbacks/saveload.py"],
  [("best tracking", M+"callbacks/callback.py:SaveBestCheckpoint"), ("registration", M+"callbacks/callbackmanager.py:initialize_callbacks")])

p("C08", "Early stopping and learning-rate schedules follow their history exactly",
  "Early stopping ends training right after the epoch in which the monitored metric has failed to improve for the configured number of consecutive checks, never earlier and never later, in both minimising and maximising mode, and end-of-training actions still run once. "
  "Step-decay, cyclic and cosine learning-rate callbacks set, at each iteration where they fire, exactly the learning rate their documented formula gives for that iteration and history, in every parameter group. "
  "Each training run starts these counters afresh.",
  ["histories", "schedules", "configurations"],
  "All metric histories, patience values, periods and parameter-group layouts, over consecutive fits.",
  "Tests call the callback objects with a couple of hand-made values.",
  [M+"callbacks/callback.py", M+"trainer.py"],
  [("early stopping", M+"callbacks/callback.py:EarlyStopping"), ("schedulers", M+"callbacks/callback.py:LRScheduler*"),
   ("stop flag", M+"trainer.py:stop_training, _train_epochs")])

p("C09", "Distributed replicas stay identical and always terminate together",
  "In gradient-based multi-process training every process executes the same sequence of collective operations, so training ends on every process under every interleaving. "
  "After every optimizer step all processes hold identical model parameters, also when training resumes from a checkpoint. "
  "If any process is interrupted or stops early, all processes stop after the same epoch.",
  ["schedules", "fault_sequences", "configurations"],
  "All interleavings of 2 to 4 processes, process speeds, interrupt placements, fresh and resumed runs.",
  "The distributed tests are skipped in the suite, and a real run samples one schedule.",
  [M+"train_utils/accelerator.py", M+"train_utils/distribution.py", M+"trainer.py", M+"callbacks/callbackmanager.py"],
  [("process group", M+"train_utils/distribution.py:start_process_group, finalize"), ("collectives", M+"train_utils/accelerator.py:all_reduce_dict, broadcast"),
   ("stop agreement", M+"trainer.py:stop_training")])

p("C10", "Distributed training refines single-process training on the joint batch",
  "In multi-process training each sample of a finite dataset is given to exactly one process per epoch (padding aside), and each optimizer step equals the single-process step on the mean of the processes' gradients. "
  "When metric aggregation is on, the recorded epoch loss and metrics are the mean over all processes, and fit returns the trained model. "
  "Files, folders and tracker records are produced by the first process only, and a checkpoint written by it can be resumed by single-process training of the same model.",
  ["schedules", "configurations", "inputs"],
  "All interleavings of 2 to 4 processes, dataset and batch sizes, loader kinds and metric settings.",
  "The distributed tests are skipped in the suite; sharding and aggregation are only tested with mocks.",
  [M+"train_utils/accelerator.py", M+"trainer.py", M+"callbacks/callback.py"],
  [("sharding", M+"train_utils/accelerator.py:_prepare_dataloader"), ("gradient averaging", M+"train_utils/accelerator.py:_prepare_model"),
   ("metric aggregation", M+"trainer.py:_aggregate_result"), ("first-process guard", M+"callbacks/callback.py")])

p("C11", "Launching assigns unique ranks and one rendezvous to every process",
  "However training is launched (one process, several spawned processes, an external launcher that exports ranks, a cluster scheduler with equally many processes on each node), the processes of one run get the ranks 0 to N-1 exactly once each, the same N, and the same rendezvous address and port. "
  "The number of processes is the one requested by the user or the external launcher, whatever runs happened earlier in the same program. "
  "A port already in use is never chosen while a free one is found.",
  ["configurations", "histories", "fault_sequences"],
  "All launch environments, requested process counts, sequences of trainings in one program and port-occupancy patterns.",
  "Tests check the helper functions one call at a time with a patched environment.",
  [M+"train_utils/execution.py", M+"train_utils/distribution.py", M+"train_utils/accelerator.py"],
  [("rank and world size", M+"train_utils/execution.py:get_rank, get_world_size"), ("environment", M+"train_utils/distribution.py:setup_process_rank_environment"),
   ("spawning", M+"train_utils/accelerator.py:_spawn_method")])

p("C12", "Every run that asks for its own folder gets a fresh one",
  "When a separate sub-folder per run is requested, each run writes its checkpoints and logs into a folder that no other run has used, so it never loads or overwrites another run's files, whatever the clock does. "
  "When a fixed folder is given, every run uses exactly that folder. "
  "The folder exists before the first record or checkpoint is written.",
  ["histories", "schedules", "fault_sequences"],
  "All sequences of runs in one or several processes, with equal, repeated or backward-jumping clock readings and recycled process numbers.",
  "Name collisions need two runs at the same clock reading; tests run once per second-resolution timestamp.",
  [M+"train_utils/config_manager.py", M+"config.py"],
  [("sub-folder naming", M+"train_utils/config_manager.py:_add_subfolder, _createlog_folder")])

p("C13", "Waiting for a cloud result returns it, or times out at the requested time",
  "Waiting for a cloud workload returns its result if the service reports it finished by the time the timeout has elapsed, and a stopped workload is reported as stopped, whatever positive timeout and refresh interval are given. "
  "Otherwise it raises a timeout error, never before the timeout has elapsed and at most one refresh interval plus two requests after it. "
  "A result is only ever returned for the workload asked for and only when the service says it is done.",
  ["schedules", "fault_sequences", "inputs"],
  "All timeouts, refresh intervals, request latencies, workload life cycles and clock behaviours.",
  "Tests patch the clock away and try a single timeout/refresh pair.",
  ["qadence/pasqal_cloud_connection.py"],
  [("status mapping", "qadence/pasqal_cloud_connection.py:check_status"), ("polling loop", "qadence/pasqal_cloud_connection.py:get_result")])

p("C14", "A cloud workload is submitted once and arrives exactly as specified",
  "Each submission creates exactly one workload at the service and returns its identifier; if the service refuses or the network fails, the error reaches the caller and nothing is silently resubmitted. "
  "Decoding what arrived (for the operations that can be serialised) gives back a circuit, observable, parameter values, backend and result types equivalent to those specified. "
  "Interleaved submissions and polls never mix up workloads.",
  ["histories", "fault_sequences", "programs"],
  "All workloads and all interleavings of submissions and polls with network failures before, during and after delivery.",
  "Tests compare against a mock for one circuit.",
  ["qadence/pasqal_cloud_connection.py", "qadence/serialization.py"],
  [("encoding", "qadence/pasqal_cloud_connection.py:_workload_spec_to_json"), ("submission", "qadence/pasqal_cloud_connection.py:submit_workload")])

p("C15", "Saved objects survive crashes whole and load back equivalent",
  "After saving a block, circuit, register or quantum model made of serialisable operations (digital gates, controlled and parametric gates, digital noise) to a file completed without a storage failure, loading that file in any process gives an object equivalent to the one saved, including trained parameter values where the format stores parameters. "
  "If saving over an existing file is interrupted by a crash or a storage error at any point, loading gives either the previous or the new object. "
  "Loading a truncated or missing file raises an error and never returns a partial object.",
  ["crash_points", "fault_sequences", "programs"],
  "Every crash or failure point in every sequence of saves and loads of every kind of object in both file formats.",
  "Tests save and load one healthy file; none interrupts a save.",
  ["qadence/serialization.py", "qadence/model.py"],
  [("save/load", "qadence/serialization.py:save, load, save_json, save_pt"), ("model state", "qadence/model.py:_to_dict, _from_dict, save, load")])

p("C16", "Sampling conserves shots and only returns outcomes the state allows",
  "For every outcome of the random draws, sampling returns one counter per batch element holding exactly the requested number of shots, on bitstrings of the right length whose probability in the circuit's output state is non-zero. "
  "The probability with which each bitstring is drawn is the squared amplitude of that bitstring in the state that running the same circuit returns, and the reported order of qubits follows the requested endianness. "
  "Readout noise and readout-error mitigation keep the number of shots, and mitigation with given per-qubit confusion matrices inverts exactly that readout error up to rounding, giving the closest valid distribution where the inverse is not one.",
  ["schedules", "inputs", "programs"],
  "All random streams (including extreme ones), shot numbers, batch sizes, endianness settings and backends.",
  "Tests sample once with one random stream and a statistical tolerance.",
  ["qadence/backends/pyqtorch/backend.py", "qadence/backends/horqrux/backend.py", "qadence/model.py", "qadence/execution.py", "qadence/mitigations/readout.py"],
  [("sampling", "qadence/backends/*/backend.py:sample"), ("readout mitigation", "qadence/mitigations/readout.py")])

p("C17", "Shot-based expectation values equal the average of the shots actually drawn",
  "For every outcome of the random draws, the tomography estimate of an observable made of Pauli and number operators equals the coefficient-weighted sum, over its terms, of the average value (parity, or number) of the shots drawn in that term's measurement basis, and an observable that is a constant contributes exactly. "
  "The classical-shadow estimate equals the documented median-of-means of the single-shot estimates of the recorded random bases and outcomes. "
  "Every returned estimate is real, has one entry per batch element and observable, and lies within the range its shots allow.",
  ["schedules", "inputs", "programs"],
  "All random streams, observables, shot numbers, group sizes and batches.",
  "Tests compare with the exact value up to a loose statistical tolerance, which hides wrong bases, signs or weights that happen to be small.",
  ["qadence/measurements/tomography.py", "qadence/measurements/shadow.py", "qadence/measurements/utils.py", "qadence/measurements/samples.py"],
  [("tomography", "qadence/measurements/tomography.py, utils.py"), ("shadows", "qadence/measurements/shadow.py")])

p("C18", "Seeded programs are reproducible across processes and histories",
  "Two processes that set the same random seeds and perform the same operations get identical parameter values, samples, shot-based estimates, data orders and training trajectories, whatever the hash seed, working directory, process number, clock or directory order. "
  "Within one process, repeating the operations after re-seeding gives the same results again, whatever ran in between. "
  "The order of a model's parameters is always the same for the same circuit.",
  ["histories", "configurations", "schedules"],
  "All programs of building, training, sampling and estimating, with all intermediate histories and environments.",
  "Tests run in one process with one hash seed.",
  ["qadence/model.py", "qadence/blocks/utils.py", "qadence/parameters.py", "qadence/blocks/embedding.py", M+"data.py", M+"trainer.py"],
  [("parameter creation and ordering", "qadence/blocks/embedding.py, qadence/parameters.py"), ("random draws", "qadence/backends/*, qadence/measurements/*, " + M + "data.py")])

p("C19", "Concurrent callers of independent objects never affect each other",
  "When several threads of one program build, convert, run, sample, differentiate, serialise or train independent blocks, circuits and models (with parameter names of their own), each gets exactly the results it would get alone, under every interleaving. "
  "Threads that only evaluate one shared model concurrently also get the sequential results.",
  ["schedules", "programs"],
  "All interleavings at every executed source line of 2 to 3 threads calling the public API.",
  "Tests are single-threaded.",
  ["qadence/model.py", "qadence/backend.py", "qadence/engines", "qadence/transpile", "qadence/blocks", "qadence/serialization.py"],
  [("absence of shared mutable state", "qadence/model.py, qadence/blocks, qadence/backends")])

p("C20", "Results never depend on which calls were made before",
  "Evaluating a model (run, sample, expectation, gradients) does not change the model, the circuit, the observable or the caller's inputs, so any sequence of calls, including calls that fail, gives for each call the same result as a freshly built model given the same parameters. "
  "Changing parameters and then changing them back restores the original results. "
  "Copying, serialising or converting an object leaves the original unchanged and independent.",
  ["histories", "fault_sequences", "programs"],
  "All histories of API calls on one object, interleaved with failing calls, parameter changes, copies and conversions.",
  "Tests make one or two calls per object.",
  ["qadence/model.py", "qadence/backend.py", "qadence/backends", "qadence/engines", "qadence/execution.py"],
  [("converted circuit reuse", "qadence/model.py"), ("embedding", "qadence/blocks/embedding.py")])

p("C21", "Gradient-free training reports every candidate's own loss to the optimizer",
  "In gradient-free training, each loss told to the optimizer is the loss of exactly the parameter vector it is told for, each candidate the optimizer proposes is evaluated and reported exactly once, and the model always holds the latest proposed candidate after a step. "
  "All trainable parameters and only those are optimised. "
  "Switching temporarily between gradient-based and gradient-free mode restores mode and optimizer afterwards, also when training fails or is interrupted inside.",
  ["histories", "fault_sequences", "configurations"],
  "All optimizers, budgets, batch counts, interrupts, failures inside the loss, and sequences of mode switches.",
  "Tests only check that the loss went down.",
  [M+"optimize_step.py", M+"parameters.py", M+"train_utils/base_trainer.py", M+"trainer.py"],
  [("ask/tell step", M+"optimize_step.py:update_ng_parameters"), ("mode switching", M+"train_utils/base_trainer.py:enable_grad_opt, disable_grad_opt")])

p("C22", "Data loaders deliver every sample once per pass, aligned, forever if infinite",
  "Every pass over a finite loader delivers each sample exactly once with its tensors aligned; an infinite loader never ends and every consecutive pass of its length contains each sample exactly once, for every outcome of the shuffling. "
  "A dictionary of loaders delivers one batch of every member per step. "
  "Training, validation and testing consume per epoch exactly the documented number of batches, in delivery order, converted to the configured device and precision without changing the data.",
  ["schedules", "histories", "inputs"],
  "All shuffles, dataset and batch sizes, interleavings of several iterators over one dataset, and numbers of epochs.",
  "Tests draw a few batches with one shuffle.",
  [M+"data.py", M+"trainer.py", M+"train_utils/base_trainer.py", M+"train_utils/accelerator.py"],
  [("infinite dataset", M+"data.py:InfiniteTensorDataset"), ("dictionary loader", M+"data.py:DictDataLoader"), ("batch iteration", M+"trainer.py:_batch_iter; base_trainer.py:_compute_num_batches")])

p("C23", "Overlaps from shots equal their estimator applied to the shots drawn",
  "For every outcome of the random draws, the overlap of two circuits estimated from shots equals, for every pair of parameter values in the documented arrangement, the estimator of its method (fraction of all-zero shots, ancilla averages of the swap and Hadamard tests, one minus the Jensen-Shannon divergence) applied to exactly the requested number of shots, drawn from the states these two circuits prepare. "
  "Without shots it equals the squared modulus of the states' inner product by every exact method. "
  "Evaluating an overlap changes neither circuits nor inputs nor later results, also when a draw fails.",
  ["inputs", "schedules", "histories"],
  "All pairs of circuits with at most one feature parameter each, all outcomes of the draws, numbers of shots, batches and sequences of evaluations.",
  "Tests compare a few circuits within statistical tolerances that hide wrong pairings and estimators.",
  ["qadence/overlap.py", "qadence/transpile/invert.py", "qadence/divergences.py"],
  [("construction of the test circuits", "qadence/overlap.py:_select_overlap_method"), ("pairing of values", "qadence/overlap.py:_process_param_values, forward"), ("estimators", "qadence/overlap.py:overlap_*")])

p("C24", "Pulse-level evaluations match their states and ignore earlier calls",
  "On the emulated pulse-level backend every run, sample, expectation, noisy simulation and gradient gives, per parameter value, what a freshly built model with the same parameters gives alone, whatever other calls, noise settings, failures or interrupts came before; configuration, circuit and inputs are not changed. "
  "Sampling returns exactly the requested shots, drawn with the squared amplitudes of the state that run returns, in the requested qubit order. "
  "Expectation values are those of that state, or of the noisy density matrix (which tends to that state as noise vanishes), for each observable including complex ones; where pulses are ideal and atoms far apart, and for global analog blocks always, the state is the described evolution under gates of either sign, drive, interaction and addressing pattern, and so is the emulated backend's.",
  ["histories", "schedules", "inputs"],
  "All sequences of evaluations over models sharing circuits or configurations, all outcomes of the draws, and failures at any line.",
  "Tests evaluate a fresh model once, with real-valued observables.",
  ["qadence/backends/pulser", "qadence/analog", "qadence/model.py"],
  [("evaluation", "qadence/backends/pulser/backend.py:run, _run_noisy, sample, expectation"), ("pulses", "qadence/backends/pulser/pulses.py:add_pulses, add_addressing_pattern"), ("emulation of analog blocks", "qadence/analog/parse_analog.py, qadence/analog/hamiltonian_terms.py"), ("observables", "qadence/backends/pulser/convert_ops.py"), ("call options", "qadence/model.py:expectation")])

N = []
def n(id, title, statement, over, qtext, why, files, mech):
    p(id, title, statement, over, qtext, why, files, mech)
    N.append(id)

n("N01", "All backends compute the state the circuit's matrix semantics prescribes",
  "Running a circuit on any backend gives, up to numerical error, the product of its gates' matrices applied to the initial state, with expectation values to match.",
  ["programs", "inputs"], "All circuits, parameters, initial states and backends.",
  "Tests sample a finite set of circuits.", ["qadence/backends", "qadence/blocks/block_to_tensor.py"],
  [("block conversion", "qadence/backends/*/convert_ops.py")])
n("N02", "Transpilation never changes what a circuit computes",
  "Flattening, scaling, chaining, inversion and digital-analog rewriting of a block give a block with the same unitary or observable.",
  ["programs"], "All blocks.", "Tests sample a finite set of blocks.", ["qadence/transpile"],
  [("passes", "qadence/transpile/*.py")])
n("N03", "The adjoint of a block is its inverse",
  "Every unitary block followed by its adjoint acts as the identity, and observables are unchanged by taking the adjoint twice.",
  ["programs", "inputs"], "All blocks and parameters.", "Tests sample a finite set.", ["qadence/blocks", "qadence/operations"],
  [("dagger", "qadence/blocks/*.py, qadence/operations/*.py")])
n("N04", "All differentiation modes give the same derivatives",
  "Automatic differentiation, adjoint differentiation and (generalised) parameter-shift rules agree on all supported orders of derivative.",
  ["programs", "inputs"], "All circuits, observables and parameter values.", "Tests sample a finite set.", ["qadence/engines", "qadence/backends/gpsr.py"],
  [("differentiation", "qadence/engines/*/differentiable_expectation.py")])
n("N05", "Parameter expressions are evaluated and embedded exactly",
  "Each gate parameter receives the value of its symbolic expression under the current feature, variational and fixed parameter values, batched consistently.",
  ["programs", "inputs"], "All expressions and values.", "Tests sample a finite set.", ["qadence/blocks/embedding.py", "qadence/parameters.py", "qadence/ml_tools/constructors.py"],
  [("embedding", "qadence/blocks/embedding.py")])
n("N06", "Serialising and deserialising any object is the identity",
  "Turning any block, circuit, register, expression or model into its dictionary form and back gives an equal object.",
  ["programs"], "All serialisable objects.", "Tests sample a finite set.", ["qadence/serialization.py"],
  [("round trip", "qadence/serialization.py:serialize, deserialize")])
n("N07", "Analog evolution follows the Hamiltonian of register and device",
  "Analog blocks evolve the state under the driving and interaction Hamiltonian given by the register geometry, device and interaction strength, including add-patterns.",
  ["programs", "inputs"], "All analog blocks, registers and devices.", "Tests sample a finite set.", ["qadence/analog", "qadence/register.py", "qadence/operations/analog.py"],
  [("hamiltonian construction", "qadence/analog/*.py")])
n("N08", "Circuit constructors build the documented circuits",
  "Feature maps, ansatze, QFT, Hamiltonian and digital-analog constructors return blocks with the documented structure and action for every size and option.",
  ["inputs"], "All sizes and options.", "Tests sample a finite set.", ["qadence/constructors"],
  [("constructors", "qadence/constructors/*.py")])
n("N10", "Noise channels act as the physical channels they name",
  "Digital noise turns the state into the density matrix the named channels prescribe, with unit trace and positivity.",
  ["programs", "inputs"], "All circuits and noise settings.", "Tests sample a finite set.", ["qadence/noise", "qadence/backends/pyqtorch"],
  [("noise conversion", "qadence/backends/pyqtorch/convert_ops.py")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        assert q["statement"].count(". ") <= 2, q["id"]
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
    print(len(P))
