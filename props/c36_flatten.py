"""C36: flattened network parameters."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Prop, arr, exact, fail, hit, note, same, shape_is
from pbt.gen import dec, ints, pick, seeds

P = Prop('C36', torch=True, assumptions=['parameters left out of the flat vector keep the values of the model that is passed for the evaluation', 'networks without batch statistics'])


_CLS = []


def net_class():
    if not _CLS:
        import torch
        import torch.nn as nn
        acts = {'relu': nn.ReLU, 'tanh': nn.Tanh, 'none': nn.Identity}

        class Net(nn.Module):
            def __init__(self, sizes, act, bias, norm, conv):
                super().__init__()
                L, s = [], list(sizes)
                if conv:
                    L += [nn.Unflatten(-1, (1, s[0])), nn.Conv1d(1, 2, 1, bias=bias), nn.Flatten(-2)]
                    s[0] *= 2
                for i in range(len(s) - 1):
                    L.append(nn.Linear(s[i], s[i + 1], bias=bias))
                    if norm and s[i + 1] > 1:
                        L.append(nn.LayerNorm(s[i + 1]))
                    if i < len(s) - 2:
                        L.append(acts[act]())
                self.a = nn.Sequential(*L)
                self.scale = nn.Parameter(torch.ones(()))        # a parameter without axes

            def forward(self, x):
                return self.scale * self.a(x)
        _CLS.append(Net)
    return _CLS[0]


def mlp(*a):
    return net_class()(*a)


@st.composite
def cases(draw):
    n = draw(ints(1, 3))
    sizes = [draw(ints(1, 4)) for _ in range(n)] + [draw(ints(2, 4))]
    return {'sizes': sizes, 'act': draw(pick('relu', 'tanh', 'none')), 'bias': draw(st.booleans()), 'norm': draw(pick(False, False, True)), 'conv': draw(pick(False, False, True)), 'N': draw(ints(1, 4)), 'seed': draw(seeds),
            'B': draw(ints(1, 7)), 'order': draw(seeds), 'drop': draw(pick(0, 0, 0, 1, 2)), 'names': draw(pick('given', 'given', 'default')), 'batches': draw(st.lists(ints(1, 4), min_size=1, max_size=3)), 'double': draw(st.booleans()),
            'loss': draw(pick('ce', 'mse'))}


@P.facet('networks', cases, quick=350, rule='small networks with shuffled and partial parameter lists: property table, flat vectors, outputs, losses and accuracies against the networks themselves; non-trivial: two networks and two parameters')
def networks(c):
    import torch
    import torch.nn as nn
    from cbx.utils import torch_utils as T
    torch.manual_seed(c['seed'] % 2 ** 31)
    dt = torch.float64 if c['double'] else torch.float32
    nets = [mlp(c['sizes'], c['act'], c['bias'], c['norm'], c['conv']).to(dt) for _ in range(c['N'])]
    for m in nets:
        for p in m.parameters():
            nn.init.normal_(p)
    all_names = [n for n, _ in nets[0].named_parameters()]
    names = list(all_names)
    if c['names'] == 'given':
        r = np.random.default_rng(c['order'])
        names = [names[i] for i in r.permutation(len(names))]
        names = names[:max(1, len(names) - c['drop'])]
        pp = T.get_param_properties(nets, pnames=names)
    else:
        pp = T.get_param_properties(nets)
    if list(pp) != names:
        fail('the property table lists %s, expected %s' % (list(pp), names))
    at = 0
    for n in names:
        shape = tuple(dict(nets[0].named_parameters())[n].shape)
        s, lo, hi = pp[n]
        if tuple(s) != shape or lo != at or hi != at + int(np.prod(shape)):
            fail('%s: %s at [%r, %r), expected %s at %d' % (n, tuple(s), lo, hi, shape, at))
        at = hi
    saved = [{n: p.detach().clone() for n, p in m.named_parameters()} for m in nets]
    w = T.flatten_parameters(nets, names)
    shape_is(w, (c['N'], at), 'flat vectors')
    if w.requires_grad:
        fail('the flat vectors require gradients')
    for i, m in enumerate(nets):
        d = dict(m.named_parameters())
        for n in names:
            exact(w[i, pp[n][1]:pp[n][2]], d[n].detach().reshape(-1), 'slice of %s of network %d' % (n, i))
    base = nets[-1] if c['seed'] % 2 else mlp(c['sizes'], c['act'], c['bias'], c['norm'], c['conv']).to(dt)
    base_saved = {n: p.detach().clone() for n, p in base.named_parameters()}
    x = torch.randn(c['B'], c['sizes'][0], dtype=dt)
    tol = 1e-9 if c['double'] else 1e-3

    def ref(i):
        net = mlp(c['sizes'], c['act'], c['bias'], c['norm'], c['conv']).to(dt)
        with torch.no_grad():
            for n, p in net.named_parameters():
                p.copy_(saved[i][n] if n in names else base_saved[n])
        return net
    refs = [ref(i) for i in range(c['N'])]
    with torch.no_grad():
        want = torch.stack([m(x) for m in refs])
    outs = T.eval_models(x, base, w, pp)
    same(outs.detach(), want, 'outputs of all networks', rtol=tol, atol=tol * (1 + float(want.abs().max())))
    k = c['sizes'][-1]
    lab = torch.randint(0, k, (c['B'],))
    y = lab if c['loss'] == 'ce' else torch.randn(c['B'], k, dtype=dt)
    lf = nn.CrossEntropyLoss() if c['loss'] == 'ce' else nn.MSELoss()
    wl = torch.stack([lf(m(x), y) for m in refs]).detach()
    ls = T.eval_losses(x, y, lf, base, w, pp)
    shape_is(ls, (c['N'],), 'losses')
    same(ls, wl, 'losses of all networks', rtol=tol, atol=tol * (1 + float(wl.abs().max())))
    xs = [torch.randn(b, c['sizes'][0], dtype=dt) for b in c['batches']]
    ys = [torch.randint(0, k, (b,)) for b in c['batches']]
    for i in range(c['N']):
        same(T.eval_model(x, base, w[i], pp).detach(), want[i], 'output of network %d' % i, rtol=tol, atol=tol * (1 + float(want.abs().max())))
        same(T.eval_loss(x, y, lf, base, w[i], pp), wl[i], 'loss of network %d' % i, rtol=tol, atol=tol * (1 + float(wl.abs().max())))
        right = sum(int((refs[i](a).argmax(1) == b).sum()) for a, b in zip(xs, ys))
        srt = torch.cat([refs[i](a).detach() for a in xs]).sort(1).values
        gap = float((srt[:, -1] - srt[:, -2]).min())
        acc = T.eval_acc(base, w[i], pp, list(zip(xs, ys)))
        if gap > 100 * tol * (1 + float(srt.abs().max())):
            same(arr(acc).astype(float).reshape(()), right / sum(c['batches']), 'accuracy of network %d' % i, rtol=1e-6, atol=1e-6)
    for i, m in enumerate(nets):
        for n, p in m.named_parameters():
            exact(p.detach(), saved[i][n], 'parameter %s of network %d afterwards' % (n, i))
    for n, p in base.named_parameters():
        exact(p.detach(), base_saved[n], 'parameter %s of the evaluated model afterwards' % n)
    w2 = w.clone()
    w2 += 1.
    for i, m in enumerate(nets):
        for n, p in m.named_parameters():
            exact(p.detach(), saved[i][n], 'parameter %s of network %d' % (n, i))
    if c['N'] > 1 and len(names) > 1:
        hit('subset' if len(names) < len(all_names) else 'all parameters')
