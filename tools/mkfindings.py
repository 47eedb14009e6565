"""Write known_findings.jsonl: genuine defects found by the checks (fixed ones suppress nothing)."""
import json, os, subprocess
F = [
 ("C01", "DistTargetsCopy: only the root process needs", "with targets on the root process only, MPI runs failed"),
 ("C01", "DistTargetsCopy: keep target data", "MPI runs paired chi2 arrays with other targets when ids are not in ascending order"),
 ("C01", "multiprocessing scan: pass target data", "worker runs paired spectra with other targets when ids are not in ascending order"),
 ("C14", "DistTemplate: allow more MPI ranks", "more MPI ranks than template redshifts failed"),
 ("C09", "reusing a chi2 scan with MPI", "saved chi2 scan could not be reused with MPI"),
 ("C08", "read_zscan: read all parts", "read_zscan opened the file twice and could mix two versions"),
 ("C04", "multiprocessing: a failed or killed worker", "a failed or killed worker process made the parent wait forever or lose targets"),
 ("C03", "fitz: archetypes without a prior", "rrdesi --archetypes-no-legendre always failed"),
 ("C03", "archetypes: nearest neighbours without", "nearest neighbour archetypes without a prior always failed"),
 ("C15", "Target: bands of coadded spectra", "archetype fits of coadded targets used the bands of the uncoadded spectra"),
 ("C15", "zfind: targets without minima", "one target without minima for a template ended the whole run"),
 ("C13", "zfind: number of rows of columns", "archetypes for one spectral type: wrong number of rows of Legendre coefficients"),
 ("C05", "rrdesi: abort the job if one rank", "one rank failing to read the archetypes left the other ranks waiting"),
 ("C07", "rrdesi: --model without --outfile", "rrdesi --model without --outfile failed"),
 ("C03", "rrboss: target ids from 32 bit", "rrboss overflowed computing target ids"),
 ("C03", "rrboss: --archetypes", "rrboss --archetypes failed"),
 ("C11", "wrap-redrock: rrdesi takes its input", "wrap-redrock gave rrdesi its input without -i, so that every command failed"),
 ("C11", "wrap-redrock: rrboss calls its outputs", "wrap-redrock gave rrboss options it does not have"),
 ("C11", "wrap-redrock: end cleanly", "wrap-redrock crashed if there was nothing left to do"),
 ("C12", "wrap-redrock: failure of one rank", "wrap-redrock left the other ranks waiting if one rank failed"),
 ("C11", "wrap-redrock: one group of BOSS", "wrap-redrock for BOSS data failed with --maxnodes less than the number of ranks"),
 ("C12", "wrap-redrock: back up logs", "log backups collided with other files called logfile.*; the spectra were never processed again"),
 ("C12", "wrap-redrock: an unreadable", "one unreadable spectra file kept wrap-redrock from processing any file"),
 ("C15", "coadd with cosmic rejection", "--cosmics-nsig: one spectrum without valid pixels ended the whole run"),
 ("C13", "archetypes: columns and shapes", "archetypes for some types or bands only: columns lost or run ended"),
 ("C07", "write_zscan: results without Legendre", "details of runs without Legendre terms could not be written"),
 ("C13", "rrdesi --model: targets without spectra", "model of targets without spectra in some band failed"),
 ("C02", "rrdesi: masks of files when other", "with a MASK extension missing from one file or band, masks of other files were applied to other spectra of a target"),
 ("C07", "read_zscan: fits of types", "read_zscan failed on details with archetypes or fibres without data"),
 ("C08", "zfind: read a saved scan once", "with MPI each rank read the scan file itself; if it was replaced meanwhile, ranks used scans of different runs"),
 ("C16", "archetypes without Legendre terms on GPUs", "with --gpu and --archetypes-no-legendre the kernel read a transposed array as if it were in C order: wrong archetypes and chi2"),
 ("C16", "rrdesi --gpu: no targets for CPU", "with more than 10000 spectra per GPU, ranks without GPU got targets although they have no templates, and the run ended"),
 ("C02", "rrboss --use-frames failed if", "rrboss --use-frames failed for plates without exposures in some camera"),
 ("C03", "rrdesi --archetypes FILE failed", "rrdesi --archetypes FILE: with a file name without dash rank 0 failed and the other ranks waited forever"),
 ("C18", "rrdesi read the archetypes again", "rrdesi read the archetypes a second time for headers and models; if they were replaced meanwhile, these did not belong to the fits"),
 ("C18", "rrdesi opened spectra files twice", "rrdesi opened spectra files twice; if one was replaced meanwhile, fibermap and spectra were of different versions"),
 ("C18", "with MPI all ranks read archetypes", "with MPI each rank read archetypes and priors; if they were replaced meanwhile, ranks used different versions"),
 ("C05", "MPI runs that failed aborted", "rrdesi and rrboss called MPI Abort with error code 0: launchers report success for failed jobs"),
 ("C05", "rrboss refused unusable options", "rrboss without outputs, or with --targetids and -n, went on and ended with success unless run with MPI"),
 ("C05", "archetypes requested from a directory", "archetypes requested from an absent directory (rrboss) or one without archetypes were silently ignored"),
 ("C19", "workers of a killed multiprocessing run", "worker processes of a run whose main process was killed waited forever to hand over their results, as they held the reading ends of their pipes themselves"),
 ("C20", "file handle of a failed details write", "after a failed write of the details the HDF5 file stayed open: later runs of the same process could not write it"),
 ("C13", "archetypes per camera failed", "--allspec with --archetypes: each spectrum counted as a camera; the run ended, or coefficients were those of other cameras"),
 ("C13", "Legendre terms of archetypes were in order", "rows of LEGCOEFF were not in order of the bands if files had their bands in another order or a target's first file lacked one"),
 ]
EXTRA = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
out = []
for pid, key, what in F:
    c = [l.split()[0] for l in log if l.split(' ', 1)[1].startswith('fix: ' + key)]
    assert len(c) == 1, (key, c)
    out.append(f'fixed: property={pid} {c[0]} {what}')
known = os.path.join(os.path.dirname(__file__), 'known.json')
if os.path.exists(known):
    out += [json.dumps(x) for x in json.load(open(known))]
open(os.path.join(os.path.dirname(__file__), '..', 'known_findings.jsonl'), 'w').write('\n'.join(out) + '\n')
