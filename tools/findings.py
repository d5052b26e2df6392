#!/usr/bin/env python3
"""Write known_findings.json: the defects that are recorded (with the probe that shows each) and those repaired in /repo."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
    dict(property='C06', probe='current_best_with_mini_batches', message='current best particle has the value',
         what='CBO with mini-batches: the current best energy can belong to an earlier position of its particle than best_cur_particle (energies outside the batch are not re-evaluated)'),
    dict(property='C33', probe='scheduler_after_a_run_ended', message='unexpected ValueError',
         what='regularization_paramter_scheduler: per-run lamda, 2 runs, run 0 ended -> the next evaluation of the active runs fails '
              '(the regularised objective keeps one lamda per run and cannot know which runs are evaluated)'),
    dict(property='C21', probe='batches_with_full_updates', message='unexpected ValueError',
         what='PolarCBO with batch_args={size: 2, partial: False} fails in the first step: consensus points exist only for the particles of the batch'),
    dict(property='C37', probe='live_plot_after_a_run_ended', message='unexpected IndexError',
         what='PlotDynamic(num_run=1, plot_consensus) after run 0 of 2 ended: the consensus has one row per active run, but is indexed by run'),
    dict(property='C37', probe='history_plot_after_a_run_ended', message='unexpected IndexError',
         what='PlotDynamicHistory(num_run=1, plot_consensus) with run 0 of 2 ended: the consensus history has one row per active run, but is indexed by run'),
]
PROP = {  # fix commits by subject -> property
    'historical best position as best particle': 'C06', 'CBOMemory with mini-batches': 'C18', 'PSO velocities': 'C19', 'PSO with mini-batches': 'C19',
    'Heaviside corrections': 'C31', 'energy stagnation criterion for several runs': 'C09', 'initial particles in the history': 'C11',
    'extra_tracks list': 'C11', 'reset keeps the tracking': 'C11', 'update norm and mean drift on multi': 'C11', 'keep the shape of the ensemble': 'C16',
    'accept shift arrays': 'C16', 'minimisers of Bukin6': 'C17', 'Taz kernel': 'C04', 'covariance of PolarCBO': 'C21', 'covariance noise with mini-batches': 'C03',
    'DriftConstrainedCBO moves without': 'C26', 'quadric constraints with non-symmetric': 'C25', 'constrained dynamics with mini-batches': 'C26',
    'independent noise of Drift': 'C26', 'domain of the ball': 'C23', 'hyperplane mirror map with its default': 'C23', 'square mirror map': 'C23',
    'log barrier': 'C23', 'derivatives of the nonsmooth': 'C23', 'simplex mirror map': 'C23', 'Hessian of the scaled L2': 'C23', 'post processing removes': 'C12',
    'evaluated on any number of runs': 'C33', 'regularization parameter rule': 'C33', 'success evaluation respects': 'C34', 'CBS.optimize returns': 'C22',
    'contour plots accept zero': 'C37', 'consensus stagnation resampling with numpy': 'C32', 'remember the runs': 'C32', 'resampling after some runs': 'C32',
    'consensus weights are normalized': 'C01', 'energies of large magnitude': 'C30', 'current best particle of terminated': 'C08', 'MirrorCBO does not move': 'C08',
    'bisection keeps': 'C30', 'domains with more than two axes': 'C32', 'memory dynamics know the best': 'C06', 'update norm and drift in the history': 'C11',
    'checked again without a step': 'C09', '1D objectives returning integers': 'C15', 'negative log densities': 'C16', 'McCormick': 'C17',
    'without a linear term': 'C25', 'implicit quadric step': 'C25', 'anisotropic correction on the sphere': 'C28', 'HyperSurfaceCBO uses its drift': 'C28',
    'called as apply(dyn, idx)': 'C32', 'empty lists of indices': 'C32', 'distance to a hyperplane': 'C33', 'distance to the minimizer': 'C34',
    'tracked with torch': 'C32', 'plots of the drift when': 'C37', 'exactly the evaluated positions': 'C18', 'saved plots show': 'C37', 'saves the evaluation points': 'C01',
}
BASE = '716bfdb'
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', BASE + '..HEAD'], text=True)
fixed = []
for line in log.splitlines():
    h, subj = line.split(' ', 1)
    assert subj.startswith('fix: '), line
    pid = [v for k, v in PROP.items() if k in subj]
    assert len(pid) == 1, (line, pid)
    fixed.append('fixed: property=%s %s %s' % (pid[0], h, subj[5:]))
with open(os.path.join(HERE, 'known_findings.json'), 'w') as fh:
    json.dump(dict(findings=FINDINGS, fixed=fixed), fh, indent=1)
    fh.write('\n')
print(len(FINDINGS), 'findings,', len(fixed), 'fixed')
