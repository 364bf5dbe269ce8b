import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

IO="ssspy/io/__init__.py"
DS=["ssspy/utils/dataset/__init__.py","ssspy/utils/dataset/sisec2010.py","ssspy/utils/dataset/mird.py"]
BSS=["ssspy/bss/base.py","ssspy/bss/ica.py","ssspy/bss/fdica.py","ssspy/bss/iva.py","ssspy/bss/ilrma.py","ssspy/bss/ipsdta.py","ssspy/bss/mnmf.py","ssspy/bss/cacgmm.py","ssspy/bss/pdsbss.py","ssspy/bss/admmbss.py","ssspy/bss/hva.py","ssspy/bss/proxbss.py"]

p("C01","WAV files are all-or-nothing under disk faults and crashes",
 "When writing a WAV file returns normally, reading that file returns exactly the frames, channel count and sampling rate that were written (after saturation and 16-bit quantisation of floating-point input). When writing is cut short at any point by a crash of the process, a full disk, an I/O error or short or torn writes, the failure is reported to the caller, and any later read of whatever is left either raises or returns exactly those frames or, untouched, the file that was there before: never shortened, shifted or mixed audio. Read faults likewise make the reader raise, never return wrong samples, and no file stays open after either function ends.",
 ["crash_points","fault_sequences","inputs"],"every operation the writer or reader issues to the disk as crash/fault point; short writes, ENOSPC, EIO; mono/stereo, channel-first/last, 8/16-bit integer and float input, first write or overwriting an older file, any length including empty",
 "The tests write a handful of arrays to a healthy disk and read them back; no test ever fails a write, cuts a file short, or looks at what a reader does with the remains.",
 [IO],[("two-step header: RIFF size back-filled at the end","wavwrite"),("data chunk size stated before the data","_write_data_chunk"),("mapping of exactly the announced data length","_read_data_chunk"),("context-managed file handles","wavread/wavwrite")],
 ["wavwrite return/exception","wavread return/exception","open file objects"])
p("C02","Any sequence of windowed WAV reads agrees with reading the whole file",
 "For any interleaving of clients reading and rewriting WAV files (none rewritten during a read of it), each windowed read (frame offset, number of frames, layout options) returns exactly the corresponding frames of one whole-file read of the version then on disk, and an out-of-range window raises instead of returning short data. Arrays already returned to a caller stay the same whatever later happens to the file or to other returned arrays, and reading never changes the file.",
 ["histories","schedules","inputs"],"all histories of write/rewrite/remove/windowed-read/modify-returned-array by several simulated clients over several files, all offsets and lengths, all layout flags",
 "Tests read each file once or twice right after writing it, with two fixed windows; they never rewrite a file under a returned array or sample offsets systematically.",
 [IO],[("copy-on-write mapping, then scaling into a detached array","_read_data_chunk"),("offset = header end + block_align * frame_offset","_read_data_chunk"),("window bound check","_read_data_chunk")],
 ["arrays returned by wavread","bytes on disk"])
p("C03","The dataset cache recovers from any interrupted download or conversion",
 "However often earlier preparations of the sample data were cut short (connection refused, reset or truncated, process killed, disk full or I/O error, at any instant of downloading, unpacking or converting), the first attempt made after the faults stop succeeds and returns the source images and sampling rate that a clean directory would give. An attempt made while faults flow either raises or returns exactly that data, never wrong, partial or mixed data.",
 ["crash_points","fault_sequences","histories"],"every network read and disk operation issued during download, unpacking and conversion as a crash or error point; sequences of several failing attempts; all tags, reverberation durations, numbers of sources, convolutive or not",
 "The dataset tests need the real network, always run to completion against whatever is cached, and never interrupt a download; they are not even part of the offline baseline.",
 DS,[("archive fetched into the cache directory, presence check before fetching","sisec2010.download / mird.download"),("unpack gated on a presence check","sisec2010.download / mird.download"),("converted arrays cached once","np.savez call in download")],
 ["return value / exception of download_sample_speech_data","contents of the cache directories"])
p("C04","Sample data depends only on the request, not on what was cached before",
 "For any history of earlier requests in the same cache directories, with any mix of data set tags, reverberation durations, numbers of sources, durations and mixing modes, each request returns exactly what it would return starting from empty directories. A request whose data are already cached performs no network access, and a repeated request never fails because of an earlier successful one.",
 ["histories","configurations"],"all sequences of requests over tag x reverberation x number of sources x maximum duration x convolutive flag x separate or shared roots, including process restarts between them",
 "Each test asks for one configuration at a time, usually the default tag and reverberation; tests never compare one request after another with different options in the same cache.",
 DS,[("cache file naming","npz_path in sisec2010.download / mird.download"),("presence checks before download/unpack/convert","download")],
 ["return value of download_sample_speech_data","requests seen by the simulated server"])
p("C05","Concurrent first uses of one dataset cache never corrupt each other",
 "When several clients prepare sample data in the same cache directories at the same time, under every interleaving of their network reads and disk operations and even if one of them is killed midway, each client that finishes returns exactly the right data and no surviving client fails. Afterwards the cache serves a further request correctly.",
 ["schedules","crash_points"],"all interleavings (at network-read and file-operation granularity) of 2-3 clients with equal or different requests, with at most one client crashing at any point",
 "Tests run one preparation at a time on a quiet disk; a race between two first uses needs a schedule no unit test controls.",
 DS,[("check-then-act sequences on the cache directory","sisec2010.download / mird.download")],
 ["per-client return value / exception","cache directory afterwards"])
p("C06","Iterations, recorded losses and callbacks follow one exact protocol",
 "For every separation method, and for a caller's own one derived from the common base class, a run of n iterations performs exactly n updates (100 when left out); callbacks see, in registration order, exactly one call per update plus one before the first update unless that is declined, and the recorded loss list grows by exactly one entry before each of those moments. An exception from a callback or user function stops the run at once, reaches the caller unchanged, and leaves the losses of completed moments in place; later runs on the same object extend the same history.",
 ["histories","fault_sequences","configurations"],"any sequence of runs on one object (n including 0, with and without the initial evaluation), zero to several callbacks, loss recording on or off, and a callback or user function that raises at any of its invocations, for every method family",
 "Tests count callbacks and losses for one uninterrupted run of a few methods, most of them needing the network; no test raises from a callback or strings several runs together.",
 BSS,[("initial evaluation, update, loss, callbacks order","IterativeMethodBase.__call__"),("per-method forwarding of the initial evaluation flag","__call__ of each method")],
 ["callback invocations","loss history","exception reaching the caller"])
p("C07","Splitting a run into consecutive runs does not change the result",
 "For every separation method that can be resumed (all but the mixture model, which re-randomises), running n iterations at once and running them as any sequence of consecutive shorter runs on the same object without the initial evaluation (scale restoration left to the end) gives the same filters, model parameters, output and, concatenated, the same recorded losses. This also holds when a run between two iterations is aborted by an exception from a callback and then continued, and when some of the iterations are the caller's own calls of the public update between two runs.",
 ["histories","crash_points"],"every composition of n into consecutive runs, including empty ones and aborts at any callback, for every method, update rule and option combination",
 "Tests always run each method once from scratch; resuming is documented (initial_call) but exercised in a single test for a few methods that need the network.",
 BSS,[("state kept on the object is reused when present","_reset of each method"),("resume flag","initial_call of __call__")],
 ["demixing filters, model parameters, output, loss list after the last run"])
p("C08","A checkpoint restored into a fresh object continues the same run",
 "For every separation method that accepts its state as arguments (all but the mixture model), saving the public state between two iterations, losing the process, and handing the saved state to a newly built object of the same configuration continues the run exactly as if it had not been interrupted: same filters, model parameters, output and losses. It makes no difference whether the object that takes the state over is new or has separated other mixtures, also of other sizes, before. The caller's saved arrays are left as they were.",
 ["crash_points","histories","configurations"],"crash at every iteration boundary, repeatedly; all methods and options with resumable state",
 "No test restores saved state into a new object and compares with the uninterrupted run.",
 BSS,[("state arguments taken over and copied","_reset / _init_* of each method")],
 ["demixing filters, model parameters, output, losses"])
p("C09","Arrays handed in by the caller are never modified",
 "For every separation method, the input mixture, every state array passed as an argument and every option object supplied by the caller keep their exact contents, dtype and identity, during a run and after it, whether it ends normally or is interrupted by an exception at any line. The same goes for the arrays passed to the helpers a caller applies before and after a separation (whitening, principal components, scale restoration, proximal, flooring and matrix functions). Results handed back never change afterwards when the object is used again.",
 ["crash_points","fault_sequences","inputs"],"every method and option; interruption injected at any executed line of the library; state arrays shared between several objects running interleaved; later runs on the same object",
 "Tests do not look at their inputs again after the call, and cannot interrupt a call at an arbitrary line.",
 BSS+["ssspy/bss/_update_spatial_model.py","ssspy/bss/_solve_permutation.py","ssspy/algorithm/permutation_alignment.py"],[("defensive copies of input and state","__call__ and _reset"),("in-place updates confined to owned arrays","update_once of each method")],
 ["caller-held arrays","returned arrays"])
p("C10","Concurrently running separators do not influence each other",
 "When several separation objects run in one process, under every interleaving of their steps each produces exactly the result it would produce alone, whatever the others do, including failing, being interrupted, or using other sizes and options, and also when one was given arrays of another (its state, output or input). Nothing a run does changes process-wide state such as the global random generator or numerical error settings.",
 ["schedules","fault_sequences"],"all interleavings at line granularity of 2-4 objects of same or different methods, sharing input arrays, with some of them aborted at any point",
 "Tests run objects one after another; an effect through shared module state, shared defaults or shared buffers needs a particular interleaving to show.",
 BSS,[("all mutable state held per object","constructors and _reset"),("no module-level mutable state","whole package")],
 ["result of each object","numpy error state and global random state before/after"])
p("C11","A seeded run is bit-for-bit repeatable and draws on no other randomness",
 "With the same input, options and seeded generator, a separation run gives bit-identical results in every process, whatever the hash seed, clock, global random state, earlier runs or memory layout history; methods with a generator option draw only from the generator they were given. Methods without random initialisation draw no random numbers at all.",
 ["schedules","histories","configurations"],"all methods and options, repeated under different hash seeds, different global random states, jumping clocks, preceding unrelated runs, and restarted processes",
 "Each test process runs each configuration once; nothing compares two processes or poisons the other sources of randomness.",
 ["ssspy/bss/ilrma.py","ssspy/bss/mnmf.py","ssspy/bss/ipsdta.py","ssspy/bss/cacgmm.py","ssspy/bss/ica.py","ssspy/bss/iva.py"],[("injected generator","rng arguments"),("deterministic initialisation","_reset")],
 ["results","calls reaching global random functions and clocks"])
p("C12","An object survives an interruption and can be run again",
 "After a run is aborted at any point (exception from a callback or other user function, a numerical failure, or a keyboard interrupt at any line), the object's state is finite and well formed, and starting a further run on the object completes and satisfies every guarantee of an uninterrupted run: its output is finite and is what its filters extract from the input. An aborted run never makes a later run fail.",
 ["crash_points","fault_sequences"],"an interruption at any executed line of the library or any user-function invocation, one or several in a row, for every method and option",
 "No test interrupts a run; the points of interruption are every line executed, far beyond what tests can name.",
 BSS,[("state replaced by whole-array assignment at the end of each partial update","update_once of each method"),("re-initialisation of missing state","_reset")],
 ["state after the abort","result of the following run"])
p("C13","Majorisation-based updates never increase the objective",
 "For every method built on majorisation or expectation maximisation (auxiliary-function ICA and IVA, low-rank matrix methods, their spatial variants, and the mixture model), the objective the object reports never increases from one iteration to the next beyond rounding, in whatever order the source pairs are visited and however the run is split, checkpointed or interrupted between iterations. It never increases either when the public partial updates of the low-rank methods (bases, activations, spatial model, normalisation) are applied one by one in any order. This holds for every update rule and source model offered, as long as no source collapses to zero, except what is documented as not monotone (multichannel NMF normalised while partitioned) and the rescaling of partitioning weights by itself.",
 ["schedules","histories","configurations","inputs"],"all pair-visit schedules supplied by the caller (random order, repeats, swapped pairs, subsets), splits and restarts, random mixtures and random starting state, all update rules and source models with a monotonicity guarantee",
 "Tests check that losses were recorded, not that they descend, and always with the default visit order and a fresh start.",
 ["ssspy/bss/fdica.py","ssspy/bss/iva.py","ssspy/bss/ilrma.py","ssspy/bss/ipsdta.py","ssspy/bss/mnmf.py","ssspy/bss/cacgmm.py","ssspy/bss/_update_spatial_model.py","ssspy/utils/select_pair.py"],[("iterative projection / source steering updates","_update_spatial_model.py"),("MM / ME parameter updates","ilrma.py, mnmf.py"),("EM updates","cacgmm.py"),("scale-compensating normalisation","normalize_* of ilrma.py / mnmf.py")],
 ["reported objective after each iteration"])
p("C14","The output is what the reported filters extract, at the restored scale",
 "After every run (and at every callback, for methods that refresh it each iteration), for methods with a demixing filter, the reported separated signal equals the reported filter applied to the input, also when signals rather than filters are the quantity being updated. With projection back the separated signals add up to the reference channel of the input; with minimal distortion each separated signal has the least-squares scale to the reference channel; without restoration the output is left unscaled. A caller who restores the scale of signals or filters by hand, to one channel or to all at once, gets the same whatever scale they had. Outputs of multichannel NMF are the Wiener estimates of the reported model, those of the mixture model its posteriors applied to the reference channel, and both add up to that channel. Filters or models applied by the caller to another recording through the public separate method extract the same way from it and leave the object as it was. There are as many separated signals as the caller asked for, or else as the present input has channels.",
 ["histories","schedules","configurations","fault_sequences"],"every observation point of every run, all methods, update rules, scale restorations and reference channels, any pair-visit schedule, splits and aborted runs",
 "Tests check the output shape; consistency between filter, output and input at intermediate points of arbitrary histories is not looked at.",
 BSS+["ssspy/algorithm/projection_back.py","ssspy/algorithm/minimal_distortion_principle.py"],[("separate with current filter","separate / update_once / compute_demix_filter"),("scale restoration","restore_scale, apply_projection_back, apply_minimal_distortion_principle")],
 ["output","demixing filter","callback observations"])
p("C15","Recorded losses are the objective of the state at that moment",
 "Each recorded loss equals the method's documented objective evaluated by an independent reference model on the parameters visible at that moment: the negative log-likelihood or contrast plus the log-determinant term over all frequency bins. It holds at every recorded moment of any history of runs, restarts and aborted runs, for every source model. Evaluating the objective by hand gives that value too and changes nothing.",
 ["histories","schedules","configurations"],"every recorded moment of any sequence of runs, splits, checkpoints, aborts and pair-visit schedules, every method with a loss",
 "Tests never recompute a loss; most loss-recording methods run only with network data.",
 ["ssspy/bss/ica.py","ssspy/bss/fdica.py","ssspy/bss/iva.py","ssspy/bss/ilrma.py","ssspy/bss/ipsdta.py","ssspy/bss/mnmf.py","ssspy/bss/cacgmm.py","ssspy/bss/pdsbss.py","ssspy/bss/admmbss.py"],[("objective","compute_loss of each method"),("log-determinant","compute_logdet")],
 ["loss list","state visible to callbacks"])
p("C16","Model parameters stay valid at every step",
 "At every observation point of every run, bases, activations, weights and variances are finite and nonnegative, spatial covariance matrices are Hermitian and positive semidefinite, posteriors and partitioning weights sum to one over sources, and filters are finite; right after each iteration, sources, covariances and bases are normalised as configured, and floored parameters are not below the floor unless rescaled since. With flooring on, this also holds when frames of the input are silent, or one channel is for a while, or loud bursts occur, when scales are extreme (for rules without a fixed step size), and after splits, restores and aborted runs.",
 ["fault_sequences","histories","inputs","configurations"],"every observation point; inputs with injected dropouts (dead frames, dead bins, bursts, extreme gains); all model-based methods and options; any history",
 "Tests use clean random or recorded data and look at shapes of final results only.",
 ["ssspy/bss/ilrma.py","ssspy/bss/mnmf.py","ssspy/bss/ipsdta.py","ssspy/bss/cacgmm.py","ssspy/bss/iva.py","ssspy/bss/fdica.py","ssspy/special/psd.py","ssspy/special/flooring.py"],[("flooring","flooring_fn uses"),("to_psd","special/psd.py"),("normalisation","normalize_* / trace normalisation")],
 ["parameters visible to callbacks"])
p("C17","Permutation alignment permutes, consistently, or not at all",
 "Aligning the frequency-wise source order returns the given signals with the sources of each bin merely reordered, applies the identical reordering to every companion array passed along, and does so even on tied, silent or repeated bins. Bins that carry the same sources end up in the same order, whatever order they arrive in, and silent bins do not keep the others from being aligned. The caller's arrays are changed when in-place operation was requested, and only then. If a user function fails midway, every bin of every array involved is still reordered consistently; after an interruption at any line, each bin of each array still holds a mere reordering.",
 ["crash_points","fault_sequences","inputs"],"failure of the user-supplied function or an interruption at any line; all shapes, companion arrays, in-place flags, degenerate bins",
 "Tests align one clean example and check shapes or one permutation; they inject no failures and never check companions under partial progress.",
 ["ssspy/algorithm/permutation_alignment.py","ssspy/bss/_solve_permutation.py","ssspy/bss/fdica.py","ssspy/bss/cacgmm.py"],[("per-bin permutation search and application","correlation_based_permutation_solver / score_based_permutation_solver"),("in-place flag","overwrite argument")],
 ["returned arrays","caller's arrays after return or exception"])
p("C18","Source-pair visiting covers what it promises and is obeyed exactly",
 "The pair-visiting schedules supplied by the library visit valid, distinct source pairs covering every source for every number of sources. Methods updating pairs ask for a fresh schedule in each iteration, pass it the number of sources, and touch exactly the pairs it yields, in that order, swapped pairs and indices counted from the end included; afterwards the last pair satisfies the optimality conditions of its update. A source in no yielded pair keeps its filter (or its signal, up to mixing by visited ones), and a schedule that fails midway leaves either everything untouched or exactly the pairs already visited applied.",
 ["schedules","fault_sequences","configurations"],"all caller-supplied pair schedules including generators that fail midway, all numbers of sources, all pairwise update rules",
 "Tests check the two library schedules for a couple of sizes and never observe what a method does with an arbitrary or failing schedule.",
 ["ssspy/utils/select_pair.py","ssspy/bss/_select_pair.py","ssspy/bss/_update_spatial_model.py","ssspy/bss/iva.py","ssspy/bss/ilrma.py","ssspy/bss/fdica.py"],[("pair generators","sequential_pair_selector / combination_pair_selector"),("pair loop","update_by_ip2 / update_by_iss2")],
 ["pairs requested","filters/outputs after each run"])
p("C19","Matrix and polynomial solvers return what they claim",
 "Polynomial root finders, generalised eigendecompositions, square roots, geometric means, proximal operators and log-quadratic minimisers satisfy their defining equations for every admissible input.",
 ["inputs"],"all admissible inputs","Tests sample a few random matrices per function.",
 ["ssspy/linalg/cubic.py","ssspy/linalg/quadratic.py","ssspy/linalg/polynomial.py","ssspy/linalg/eigh.py","ssspy/linalg/inv.py","ssspy/linalg/sqrtm.py","ssspy/linalg/mean.py","ssspy/linalg/prox.py","ssspy/linalg/lqpqm.py"],[("closed forms","ssspy/linalg")])
p("C20","Stable special functions equal their definitions",
 "Log-sum-exp, softmax, flooring functions and positive-semidefinite projection equal their mathematical definitions without overflow for every input, axis and layout.",
 ["inputs"],"all inputs and axes","Tests sample a few arrays.",
 ["ssspy/special/logsumexp.py","ssspy/special/softmax.py","ssspy/special/psd.py","ssspy/special/flooring.py"],[("max-shifted evaluation","logsumexp/softmax")])
p("C21","Whitening and principal-component transforms decorrelate",
 "Whitening yields identity sample covariance and the principal-component transform yields uncorrelated components ordered by power, for every full-rank real or complex, two- or three-dimensional input.",
 ["inputs"],"all full-rank inputs","Tests sample a few arrays.",
 ["ssspy/transform/whiten.py","ssspy/transform/pca.py"],[("eigendecomposition of the sample covariance","whiten / pca")])
p("C22","Once faults stop, every method makes progress on its objective",
 "After any history of aborts, failures and restores, iterating an object without further faults keeps lowering the objective it reports for as long as there is something to gain: no parameter block (filter of a source, bases, activations, partitioning weights, spatial model, posterior weights) stands still or settles at a point where plain descent on that block would still lower the objective noticeably, neither in whole iterations nor when one public partial update is repeated. Each step of a gradient method is its step size times the negative (natural) gradient of the reported objective. Primal-dual and ADMM methods with suitable step sizes, and fixed-point methods given enough data, settle at stationary points. Degenerate data on which a source collapses are excepted.",
 ["histories","fault_sequences","crash_points","configurations"],"any history of runs, aborts, interruptions at any line, numerical failures, process losses with restored state, followed by a fault-free suffix; all methods that report an objective, all update rules and source models, any covering pair schedule; bounded horizons",
 "Tests check that losses were recorded, never that they reach anything; a wrong but finite and even non-increasing update passes every shape and count assertion.",
 ["ssspy/bss/ica.py","ssspy/bss/fdica.py","ssspy/bss/iva.py","ssspy/bss/ilrma.py","ssspy/bss/ipsdta.py","ssspy/bss/mnmf.py","ssspy/bss/cacgmm.py","ssspy/bss/pdsbss.py","ssspy/bss/admmbss.py","ssspy/bss/_update_spatial_model.py","ssspy/linalg/prox.py"],[("one iteration","update_once of each method"),("partial updates","update_basis*/update_activation*/update_spatial* of ilrma.py, ipsdta.py, mnmf.py"),("proximal steps","linalg/prox.py")],
 ["reported objective","parameters after each iteration"])
p("C23","Each iteration is the documented step from the visible state",
 "Whatever runs, aborts, failures and restores an object has been through, an iteration takes the state visible before it to the state its method's documented update rule gives, and to nothing else: gradient and natural-gradient steps, fixed-point and eigenvector iterations, auxiliary-function updates of filters and signals (one source at a time, pairwise, with adjustment), multiplicative, minorisation and expectation-maximisation updates of source and spatial models, normalisation, and proximal splitting with its shrinkage or masking, in the documented order and for every option (step sizes, relaxation, exponents, degrees of freedom, number of basis vectors and blocks, partitioning, attenuation). A public partial update (or a whole one) called by hand does its part, with the flooring handed to it or else the object's, and touches nothing else. Options left out take the documented defaults: reference channel 0, restored scale, aligned permutation, step size 0.1, step sizes and relaxation of splitting methods 1, domain 2, normalisation, no partitioning.",
 ["histories","fault_sequences","crash_points","configurations","schedules"],"every iteration and partial update of any history of runs, splits, aborts, interruptions at any line, numerical failures, process losses with restored state; all methods, update rules, source models and options; any pair-visit schedule",
 "Tests run a few iterations from the initial state and look at shapes; a wrong exponent, order, weight or leftover from an earlier run changes no shape.",
 ["ssspy/bss/ica.py","ssspy/bss/fdica.py","ssspy/bss/iva.py","ssspy/bss/ilrma.py","ssspy/bss/ipsdta.py","ssspy/bss/mnmf.py","ssspy/bss/cacgmm.py","ssspy/bss/pdsbss.py","ssspy/bss/admmbss.py","ssspy/bss/hva.py","ssspy/bss/_update_spatial_model.py","ssspy/linalg/prox.py","ssspy/linalg/lqpqm.py"],[("one iteration","update_once of each method"),("partial updates","update_* / normalize* methods of ilrma.py, ipsdta.py, mnmf.py"),("shared spatial updates","update_by_ip1/ip2/iss1/iss2/ipa")],
 ["parameters before and after each iteration or partial update"])
p("C24","WAV files cross to other programs and back unchanged",
 "Every file the WAV writer returns from normally, also after short writes, is a well-formed RIFF/WAVE file that a strict independent reader accepts: all size fields match, the header is consistent, and the samples, channel order and sampling rate are those that were written, with 8-bit samples unsigned as the format requires. Every plain PCM file of 8, 16 or 32 bits and any number of channels that another program wrote, with or without further chunks after the samples, is read with exactly its samples, whatever window and layout is asked for. Any other variant, and any file whose writer was killed, is either refused or read exactly, never as wrong audio.",
 ["histories","schedules","fault_sequences","crash_points","inputs"],"all histories of several clients exchanging files between the library and another program; all integer and float inputs, 1-4 channels, empty to thousands of frames, extra and odd-sized chunks, extensible, float and 24-bit files, writers killed at any byte; short reads and writes, I/O errors, full disk, signals",
 "Tests compare with one other reader on a few 16-bit arrays, and the files they read need the network; no test looks at the header fields, at 8- or 32-bit samples, at extra chunks or at incomplete files of other programs.",
 [IO],[("header fields and back-filled RIFF size","wavwrite, _write_fmt_chunk, _write_data_chunk"),("format checks before reading","wavread, _read_fmt_chunk"),("sample type and scaling by width","_read_data_chunk")],
 ["bytes of the written file","arrays returned by wavread"])
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
