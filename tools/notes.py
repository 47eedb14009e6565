"""Technique and limits of each check; used by mkmanifest.py."""

_c = 'seeded search over generated cases, schedules and faults; not exhaustive'
NOTES = {
 'C01': ('zfind under a seeded scheduler of MPI ranks and worker processes, with stalled ranks and clock jumps, compared with serial single-target runs', _c),
 'C02': ('the DESI and BOSS loaders on simulated MPI ranks under seeded schedules and stalls; every row on every rank compared with the generated file contents', _c),
 'C03': ('rrdesi, rrboss and zfind on simulated MPI ranks with every legal buffering mode and stalls; the simulator detects deadlock, mismatched collectives and unreceived messages', _c),
 'C04': ('runs on simulated worker processes with kills, exceptions, out-of-memory errors, abnormal exits, failed starts and stalls injected at seeded operations, calls and scheduler steps; compared with the fault-free run', _c),
 'C05': ('rrdesi and rrboss on simulated MPI ranks with a failure injected into one or two ranks at seeded points, followed by the same job without faults', _c),
 'C06': ('each writer of output files run on a simulated file system with a crash or I/O error at a seeded operation, call or scheduler step, over earlier contents and leftovers; files then read back and compared with every version', _c),
 'C07': ('writers with seeded contents and whole rrdesi/rrboss runs in seeded layouts, with I/O errors, full disks and short writes injected into the file operations of the outputs; outputs compared with what was computed, with each other and through the readers of redrock', _c),
 'C08': ('reader processes, and whole runs reusing a scan, interleaved with writer processes that replace the file (killed and restarted in some runs) on a simulated file system under seeded schedules; each read compared with every version, reads and writes checked as a history', _c),
 'C09': ('chi2 scans saved and reused under seeded schedules of ranks and workers, compared across layouts and with the run that saved them', _c),
 'C10': ('sequences of serial, multi-worker and MPI runs on the same objects under seeded schedules, clocks, hash seeds and random states; inputs digested before and after', _c),
 'C11': ('histories of wrap-redrock runs, serial and on simulated MPI ranks, over generated trees with scripted (sometimes real) commands, directory orders, killed ranks and jobs and I/O errors; launches and files compared with the set of pending files after each run', _c),
 'C12': ('histories of wrap-redrock runs with scripted command outcomes and launch errors, log and input I/O errors, failing ranks and killed jobs; attempts, log contents and rank completion checked after each run', _c),
 'C17': ('the installer run on a simulated file system with a scripted git that fails, is killed or delivers broken files at seeded points, with I/O errors and crashes of the installer; exit status compared with what is in place', _c),
 'C18': ('rrdesi and rrboss in seeded layouts together with simulated processes that replace their inputs at seeded points of the run; every output compared with the serial runs on each combination of file versions, headers with the versions that matched', _c),
 'C19': ('runs on simulated worker processes whose main process is killed, interrupted or fails at seeded operations, calls and scheduler steps, with pipes of seeded capacity; processes left over, outputs and a run after it are checked', _c),
 'C20': ('sequences of rrdesi and rrboss runs on the same simulated processes and communicator, with inputs that change in between and runs made to fail at seeded operations; each run compared with the same run in a process of its own', _c),
 'C16': ('rrdesi --gpu in seeded layouts on a simulated cupy: the CUDA kernels of redrock compiled for the CPU with the thread order chosen by the seeded scheduler, device failures at seeded operations; compared with a serial CPU run', _c),
 'C13': ('rrdesi on generated files in seeded layouts, schedules and row orders; catalog, warning bits, fibermaps, scores, details and models compared with the generated contents and with each other', _c),
 'C14': ('redshift slices of templates circulated on simulated MPI ranks under seeded schedules and buffering, compared with the template computed serially', _c),
 'C15': ('runs over mixes of targets under seeded schedules, compared with each target run alone', _c),
}
