import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":"what the property constrains","where":", ".join(files)}]
    if observe: a["observe_at"]=[observe]
    if hook is not None: a["hook_needed"]=("batch-size knobs (results per send, rows per broadcast) so that batch boundaries are reached by small runs" if id in ("C01","C02","C03","C05","C16") else None)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Redshift results do not depend on how the work is parallelised",
"For the same targets, templates, archetypes and priors, a serial run, a run with any number of worker processes and a run on any number of MPI ranks return the same best-fit table (same rows, same order, same values) and the same chi2-versus-redshift scan for every target, whatever order ranks and workers happen to run in. This includes targets with different numbers of spectra, more ranks or workers than targets, and more ranks than redshifts.",
["schedules","configurations","inputs"],"every target list, template set, worker count, rank count, message timing and scheduling order",
"The unit tests compare at most one fixed multiprocessing layout with equal-sized targets on one schedule and have no MPI at all; the guarantee is over all layouts and interleavings.",
["py/redrock/zfind.py","py/redrock/zscan.py","py/redrock/templates.py","py/redrock/targets.py"],
[("scan over distributed redshift slices and worker processes","zscan.calc_zchi2_targets"),("refinement per target in ranks or workers, gather and merge on rank 0","zfind.zfind"),("ring of template slices","templates.DistTemplate"),("target distribution","targets.distribute_targets, utils.distribute_work")],
"local target lists, template pieces, result dictionaries keyed by target","return value of zfind on rank 0",True)

p("C02","Every selected target's data reaches exactly one rank, complete and unmixed",
"When spectra are loaded for any number of ranks, every selected target is owned by exactly one rank, together with all of its spectra from all input files, in file order, with exactly the flux, weights, masks, wavelength grid and resolution stored for that target and no data of any other target. All ranks agree on the global list of targets, which holds each selected target once in order of first appearance in the input (or in the order requested, when explicit target ids are given), and on the set of wavelength grids. The programs use the spectra in the way their options ask for (coadded or not, masks applied, restricted to the requested targets).",
["inputs","configurations","schedules"],"every set of input files (coadded or per-exposure, targets spread over several files and rows, with or without masks), selection option, rank count, process capacity and broadcast batch boundary",
"Tests load one small file serially; distribution bookkeeping across files, rows, ranks and broadcast batches is never exercised.",
["py/redrock/external/desi.py","py/redrock/targets.py","py/redrock/utils.py"],
[("row bookkeeping, broadcasts in batches, local copies","external.desi.DistTargetsDESI.__init__"),("copy distribution from a root","targets.DistTargetsCopy"),("load balancing","utils.distribute_work"),("collective wavelength grids","targets.DistTargets.wavegrids")],
"per-rank Target objects, per-file row maps","DistTargets.local(), local_target_ids(), all_target_ids, wavegrids() on every rank",True)

p("C03","An MPI run always finishes: no deadlock, no mismatched or unreceived message",
"On healthy ranks every MPI run ends on all ranks, whatever legal buffering and timing the MPI library chooses (sends that complete immediately or only when received, arbitrarily delayed messages, stalled ranks). All ranks execute matching collective operations in the same order and no message is left unreceived; this holds for any rank count, including more ranks than targets or than redshifts in a template, and for any optional output or input that is requested.",
["schedules","configurations"],"every rank count, message buffering decision, message delay, rank stall and option combination",
"No unit test runs with a communicator; a deadlock depends on buffering and timing a real test run cannot choose.",
["py/redrock/templates.py","py/redrock/zfind.py","py/redrock/zscan.py","py/redrock/external/desi.py","py/redrock/external/boss.py","py/redrock/targets.py"],
[("ring exchange of template pieces","templates.DistTemplate.cycle"),("batched point-to-point gather of results","zfind.zfind"),("broadcast loops","external.desi.DistTargetsDESI, targets.DistTargetsCopy"),("timers with barriers","utils.elapsed"),("option-dependent collectives","external.desi.rrdesi, external.boss.rrboss")],
"in-flight messages, per-rank program position","simulated communicator",True)

p("C04","A failed worker process becomes an error, never a hang or a partial result",
"If any worker process of a multiprocessing run raises an exception, runs out of memory or is killed at any point, the run ends with an error in the parent within bounded time; it neither waits forever nor returns or writes results that lack or misstate targets. Slow or stalled workers, by contrast, are waited for.",
["fault_sequences","schedules","crash_points"],"every worker, every failure kind and point, in the scan or the refinement stage, and every schedule of the other workers",
"Requires killing or failing a chosen worker at a chosen point; tests run only healthy workers.",
["py/redrock/zscan.py","py/redrock/zfind.py","py/redrock/utils.py"],
[("worker wrapper of the scan","zscan._mp_calc_zchi2"),("collection loop of the scan","zscan.calc_zchi2_targets"),("worker wrapper of the refinement","zfind._mp_fitz"),("collection loop of the refinement","zfind.zfind")],
"worker processes, progress and result queues","outcome of zfind / rrdesi in the parent",False)

p("C05","Failure of one MPI rank stops the whole job and leaves no misleading output",
"If one rank of an MPI run fails (exception, out of memory, unreadable input), the whole job is aborted, with an exit status that says so, instead of leaving the other ranks waiting, and no output file produced by the failed job is partial or mixes old and new content. Running the same command again without the fault gives the same outputs as a run that never failed.",
["fault_sequences","crash_points","schedules"],"every rank, failure kind and failure point of a run, every schedule, followed by a rerun",
"Needs a failing rank among healthy ranks at arbitrary points; tests have neither ranks nor failures.",
["py/redrock/external/desi.py","py/redrock/external/boss.py","bin/rrdesi_mpi"],
[("top-level try/except with Abort","external.desi.rrdesi"),("same for BOSS","external.boss.rrboss"),("publication by rename","results.write_zscan, external.desi.write_zbest, external.desi.write_bestmodel")],
"rank states, output directory","job outcome and directory contents after the job and after the rerun",False)

p("C06","Output files are replaced atomically",
"If writing the redshift catalog (DESI or BOSS), the model file or the details file is interrupted at any point by a crash of the program or an I/O error, the final file name holds either the complete previous file or the complete new file, never a truncated, empty or mixed one; for the details file written with overwrite requested, the name may also be absent. Leftover temporary files of an interrupted run never prevent a later run from succeeding nor leak into its output.",
["crash_points","fault_sequences"],"every writer, every crash point between any two file operations and every failing, short or full-disk write, with or without a previous file and leftovers",
"A unit test sees only completed writes; the guarantee is about every prefix of the sequence of file operations.",
["py/redrock/results.py","py/redrock/external/desi.py","py/redrock/external/boss.py"],
[("write to temporary name, then rename","results.write_zscan"),("same","external.desi.write_zbest, external.desi.write_bestmodel, external.boss.write_zbest")],
"directory contents","files on disk after the crash, re-read with the package's own readers",False)

p("C07","A run that reports success has written complete and consistent outputs",
"When a run ends without error, every requested output exists under its final name, is readable, and holds exactly the results computed (each written array reads back equal up to the documented narrowing to single precision, for every target and template), and the catalog, model and details files of one run agree with each other. When any file operation needed for an output fails, the run ends with an error instead of reporting success.",
["fault_sequences","inputs","configurations"],"every result set (target ids, templates, subtypes, archetypes, column sets), output combination and single I/O failure",
"Tests write one small healthy result; failing, short or full-disk writes and their effect on the reported status are not tried.",
["py/redrock/results.py","py/redrock/external/desi.py","py/redrock/external/boss.py"],
[("details writer and readers","results.write_zscan, read_zscan, read_zfit, read_zscan_redrock"),("catalog and model writers","external.desi.write_zbest, write_bestmodel, external.boss.write_zbest"),("output section","external.desi.rrdesi, external.boss.rrboss")],
"output files","exit status plus re-read files",False)

p("C08","A reader sees one complete version of the details file",
"A program that reads the redshift details or catalog while another run is replacing it gets the contents of exactly one complete version (old or new) or a clear file error, never a mixture of versions; once a read has returned the new version, later reads never return the older one.",
["schedules","histories"],"every interleaving of file operations of one or more readers with a writer replacing the file repeatedly",
"The window between two opens of the same file by one reader is only hit by specific interleavings.",
["py/redrock/results.py","py/redrock/external/desi.py"],
[("scan and best-fit readers","results.read_zscan, results.read_zfit, results.read_zscan_redrock"),("replacement by rename","results.write_zscan, external.desi.write_zbest")],
"versions of the file","values returned by the readers",False)

p("C09","Reusing a saved chi2 scan works the same in every layout",
"Running from a previously saved chi2 scan gives the same best-fit table for serial runs, any number of worker processes and any number of MPI ranks, and agrees with the run that produced the scan up to the single precision in which the scan is stored. This includes saved scans that cover more targets than are being processed.",
["configurations","schedules","inputs"],"every layout and schedule, and every saved scan covering at least the processed targets",
"Only a serial read of a saved scan is exercised by tests.",
["py/redrock/zfind.py","py/redrock/results.py"],
[("loading the saved scan","results.read_zscan_redrock"),("merge of per-rank results","zfind.zfind")],
"results dictionary per rank","return value of zfind on rank 0",False)

p("C10","Fitting leaves its inputs unchanged and can be repeated",
"Computing redshifts does not change the input spectra, templates, archetypes or fitted priors, whether they live in ordinary or shared memory and however workers are scheduled, so that running again on the same objects, in any sequence of serial, multi-worker and MPI runs, gives the same results. The results do not depend on the wall clock, on clock jumps, on hash seeds or on global random state.",
["histories","schedules","inputs"],"every sequence of runs over the same objects, every worker schedule and clock behaviour",
"Tests build fresh objects for each run; sharing across runs and workers, and clock faults, are not explored.",
["py/redrock/zfind.py","py/redrock/zscan.py","py/redrock/fitz.py","py/redrock/targets.py","py/redrock/templates.py","py/redrock/utils.py"],
[("shared-memory packing","targets.Spectrum.sharedmem_pack / sharedmem_unpack, utils.mp_array"),("ring returns to its start","templates.DistTemplate.cycle"),("timers","utils.elapsed")],
"Spectrum arrays, template pieces","input objects before and after, results of repeated runs",False)

p("C11","The production driver processes every pending file exactly once and can resume",
"In every run of the production driver, each spectra file lacking one of its two outputs is processed by exactly one rank and files with both outputs are left alone. After any history of crashed, killed or failed runs, running the driver again processes exactly the files still lacking outputs, and once faults stop everything is complete; a run with nothing left to do ends cleanly. (Files for redrock output, and for BOSS everything below the `spectra` directory of the reduction, are not spectra files to process.)",
["histories","crash_points","configurations"],"every directory tree, rank count, and history of driver crashes and per-file failures",
"The driver has no tests at all; resumption is a property of histories of runs.",
["bin/wrap-redrock"],
[("discovery of pending files","find_specfiles, spectra2outfiles"),("load-balanced grouping across ranks","group_specfiles, weighted_partition, plan"),("processing loop","run_redrock")],
"output tree","commands launched per file, outputs after each run",False)

p("C12","Driver: failures are retried once, isolated per file, logged and never hang",
"When the command for one file fails, the driver tries it once more and no more, a success is not repeated, and whatever happens to one file does not prevent the other files from being processed nor stop any rank from finishing. Log files of earlier attempts and runs are kept, never overwritten or lost, and a failure of one rank before processing starts does not leave the other ranks waiting forever.",
["fault_sequences","histories","schedules"],"every pattern of command failures, launch errors, log I/O errors and rank failures over several runs",
"Depends on failures of launched commands and of ranks at chosen points, over repeated runs.",
["bin/wrap-redrock"],
[("retry loop and error isolation","run_redrock"),("log rotation","backup_logs"),("collective planning","plan, group_specfiles, main")],
"log files, attempt counts","launched commands, log directory, rank completion",False)

p("C13","Catalog, fibermap and model rows describe the same targets in every layout",
"In the outputs of a DESI run the redshift table has exactly one row per selected target, in order of first appearance in the input (or in the order requested, when explicit target ids are given), each row holds the best fit and the warning bits of that target, the accompanying fibermap and score tables hold exactly the selected targets' rows, and row i of the model file is the model of the target in row i of the redshift table: its template, or its archetypes with their Legendre terms (those of several cameras in order of the band names), through the resolution of that target's spectra. The saved scan and the chi2 of archetype fits are those of the spectra that the options of the run select (coadded or not, with masked pixels, sky lines and negative flux ignored as documented). This is the same for every layout of ranks and workers and for any order of target ids in the input.",
["configurations","inputs","schedules"],"every input file set, selection, target id order, rank/worker count and schedule",
"End-to-end tests run one input file in one layout; the re-sorting of models gathered from ranks only matters for distributed targets.",
["py/redrock/external/desi.py","py/redrock/targets.py","py/redrock/archetypes.py","py/redrock/zscan.py"],
[("fibermap slicing","external.desi.DistTargetsDESI"),("warning bits, catalog and model output","external.desi.rrdesi"),("local models","targets.DistTargets.eval_models")],
"output tables","FITS outputs of rrdesi",False)

p("C14","Redshift slices circulate completely and repeatably among ranks",
"The redshift range of a template is divided among the ranks without gap or overlap, and in one full round every rank holds every slice exactly once, with its contents unchanged and equal to the template computed for those redshifts, and ends holding its own slice again. This holds for any number of ranks, including more ranks than redshifts, any message timing, and for any number of consecutive rounds.",
["configurations","schedules","histories"],"every rank count, redshift grid, message timing and number of rounds",
"Distributed templates are tested with a single process only.",
["py/redrock/templates.py"],
[("slicing and interpolation","templates.DistTemplate.__init__, templates.load_dist_templates"),("ring exchange","templates.DistTemplate.cycle")],
"piece held by each rank","DistTemplate.local on every rank after each step",False)

p("C15","A target's result does not depend on the other targets in the run",
"The scan and best-fit rows of a target are the same whether it is processed alone or together with any other targets, in any order and with any identifiers, including targets without valid data, and in any layout. A target without valid data is reported with a warning and never prevents or alters the results of other targets.",
["inputs","configurations","schedules"],"every batch of targets containing the target, every order, identifier type and layout",
"Tests use batches of identical, healthy targets, for which mix-ups cannot be seen.",
["py/redrock/zfind.py","py/redrock/zscan.py","py/redrock/targets.py"],
[("per-target loops and result dictionaries","zscan.calc_zchi2_targets, zfind.zfind"),("merging and sorting of candidates","zfind.zfind, zfind.calc_deltachi2")],
"results keyed by target","return value of zfind",False)

p("C16","Using GPUs on a subset of ranks neither hangs nor loses or alters targets",
"With GPUs requested, for any number of ranks and any limit on GPU processes, ranks that are not needed leave without blocking the others, every selected target is processed exactly once, and the results agree with the CPU run to numerical precision. If a device operation fails or there is no device, the job ends with an error instead of hanging and leaves no outputs that look complete.",
["configurations","schedules","inputs"],"every rank count, GPU count and limit, and schedule",
"No GPU is present where the tests run, so the mixed layouts are never executed.",
["py/redrock/external/desi.py","py/redrock/templates.py","py/redrock/zscan.py","py/redrock/utils.py"],
[("communicator split and capacities","external.desi.rrdesi"),("full redshift range on GPU ranks, none on others","templates.DistTemplate, ReDistTemplate"),("early exit of idle ranks","zscan.calc_zchi2_targets")],
"communicator, target distribution","outputs of rrdesi",False)

p("C17","Template installation never reports a broken install as success",
"The template installer reports success only if the requested templates are in place and can be loaded; if the download fails, is interrupted or delivers unusable files it reports failure. It never modifies a directory that already exists.",
["fault_sequences","crash_points"],"every failure of the download command at any point and every prior state of the target directory",
"The installer needs a network and is not tested; failures of the launched command cannot be sampled.",
["bin/install_redrock_templates","py/redrock/templates.py"],
[("clone and verification","main"),("template discovery","templates.get_template_dir, find_templates, load_templates")],
"template directory","exit status and directory contents",False)

p("C18","A run uses one version of each of its inputs, and its outputs say which",
"Every run of rrdesi and rrboss uses, on all of its processes and from start to end, one single version of each template, archetype, prior and spectra file, even if files are replaced while it runs, and the header of the catalog and models names the code version, the file and version of every template and archetype that was used, and the group of spectra (SPGRP, SPGRPVAL, HPXPIXEL) as given by the input.",
["histories","schedules"],"every time at which another process replaces an input, every parallel layout and schedule",
"Files are read by several processes and at several times of a run; a test has neither a second writer nor the schedule under control, and a mixed result looks like any other result.",
["py/redrock/external/desi.py","py/redrock/external/boss.py","py/redrock/zfind.py","py/redrock/templates.py","py/redrock/archetypes.py","py/redrock/priors.py","py/redrock/utils.py"],
[("reading of inputs","desi.DistTargetsDESI, templates.load_dist_templates, utils.read_once, zfind.zfind (priors)"),("provenance in headers","desi._get_header, desi.write_zbest, desi.write_bestmodel, boss.write_zbest")],
"spectra, template, archetype and prior files being replaced","contents and headers of all outputs",False)

p("C19","However a multiprocessing run ends, none of its worker processes stays behind",
"Whenever the main process of a run with worker processes ends, because it is done, fails, is interrupted or is killed at any point, all of its worker processes end too within bounded time, whatever they are doing (also in the middle of handing over results that nobody reads any more). The output files hold their earlier or their complete new contents then, an exit status of success is only given with complete outputs, and the same run started again in the same place succeeds.",
["crash_points","schedules","fault_sequences"],"every point at which the main process is killed, interrupted or fails, every schedule of its workers, every pipe capacity",
"Needs the death of the main process at chosen points of the hand-over between processes; a stuck worker is not seen by a test that looks at the result of the main process.",
["py/redrock/utils.py","py/redrock/zfind.py","py/redrock/zscan.py","py/redrock/templates.py","py/redrock/external/desi.py","py/redrock/external/boss.py"],
[("worker processes and their pipes","utils.MPWorkers"),("worker functions","zfind._mp_fitz, zscan._mp_calc_zchi2, templates._mp_rebin_template")],
"processes and pipes of the run","processes left after the end of the main process, output files, exit status",False)

p("C20","Runs in one process do not affect each other",
"rrdesi and rrboss can be called any number of times in one process or on one MPI communicator, with the same or other inputs and options, also after a run that failed. Each run gives the outputs, and success or failure, that it gives in a process of its own, and leaves no unreceived messages, worker processes or open output files behind.",
["histories","fault_sequences","schedules"],"every sequence of runs and inputs, every failure of earlier runs, every layout and schedule",
"Tests call the programs a few times with the same inputs; state kept from an earlier or failed run with other inputs needs a history, and with MPI a schedule, to show.",
["py/redrock/external/desi.py","py/redrock/external/boss.py","py/redrock/zfind.py","py/redrock/zscan.py","py/redrock/templates.py","py/redrock/archetypes.py","py/redrock/results.py","py/redrock/igm.py","py/redrock/utils.py"],
[("programs callable with options and a communicator","external.desi.rrdesi, external.boss.rrboss"),("reading of templates, archetypes and spectra","templates.load_dist_templates, archetypes.All_archetypes, desi.DistTargetsDESI"),("output files","results.write_zscan")],
"module globals, caches, communicator and open files of the process","outputs and exit of each run",False)

# outside the family
def na(id,title,statement,over,text,why,files,mech):
    p(id,title,statement,over,text,why,files,mech)
na("N01","The scan reports the least-squares optimum at each redshift","At every redshift the reported coefficients minimise the weighted squared residual (with the template's constraints) and the reported chi2 is the value at that minimum.",["inputs"],"every spectrum and template","Holds for all numeric inputs; tests sample a few.",["py/redrock/zscan.py"],[("least squares","zscan.calc_zchi2_batch, zscan.solve_matrices")])
na("N02","Refined redshifts are true local minima and failures are flagged","Each refined redshift lies within the scanned range at a local minimum of chi2, or carries the corresponding warning bit.",["inputs"],"every chi2 curve","Depends on all shapes of chi2 curves.",["py/redrock/fitz.py"],[("minimum search","fitz.find_minima, fitz.minfit, fitz.fitz")])
na("N03","deltachi2 and the small-deltachi2 warning follow their definition","deltachi2 is the gap to the next acceptable fit at a different redshift, and the warning is set exactly when another acceptable fit is closer than the threshold.",["inputs"],"every candidate list","Combinatorial over candidate lists.",["py/redrock/zfind.py"],[("definition","zfind.calc_deltachi2")])
na("N04","Rebinning conserves flux","Rebinning a spectrum onto other bins conserves integrated flux over covered bins and is linear in the input.",["inputs"],"every grid and spectrum","Continuous input space.",["py/redrock/rebin.py"],[("trapezoidal rebinning","rebin.trapz_rebin")])
na("N05","IGM transmission stays between 0 and 1 and is 1 redward of Lyman alpha","Transmission is within [0,1], one redward of Lyman alpha and does not increase with redshift at fixed observed wavelength below it.",["inputs"],"every wavelength and redshift","Continuous input space.",["py/redrock/igm.py"],[("transmission","igm.transmission_Lyman")])
na("N06","Template type names and file headers round-trip","Building and parsing a full template type are inverse, and the templates recorded in an output header are the ones found again from it.",["inputs"],"every type, subtype and header","String input space.",["py/redrock/templates.py"],[("names","templates.make_fulltype, parse_fulltype, header2templatefiles")])
na("N07","Redshift priors add the documented penalty","A prior adds zero at its centre and grows with distance according to its documented shape and width.",["inputs"],"every prior file and grid","Continuous input space.",["py/redrock/priors.py"],[("shapes","priors.Priors")])
na("N08","Coadding is inverse-variance weighting per wavelength grid","The coadd of a target's spectra has the summed weights and the weighted mean flux and resolution, and ignores zero-weight pixels.",["inputs"],"every list of spectra","Continuous input space.",["py/redrock/targets.py"],[("coadd","targets.Target.compute_coadd")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import collections
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
