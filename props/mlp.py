"""Scalar specification of the multilayer perceptron used by P26-P28"""
from .common import *


class Net:
    """ws: list of layers, each a list of nodes, each a list of weights (bias first); out: list of output weight lists"""

    def __init__(self, H, ws, out, act):
        self.H, self.ws, self.out, self.act = H, ws, out, act

    def f(self, z):
        H = self.H
        return 1 / (1 + H.exp(-z)) if self.act == "sigmoid" else H.tanh(z)

    def df(self, a):
        """derivative of the activation, from its value"""
        return a * (1 - a) if self.act == "sigmoid" else 1 - a * a

    def forward(self, x):
        H = self.H
        self.acts = [list(x)]
        for layer in self.ws:
            v = self.acts[-1]
            self.acts.append([self.f(n[0] + H.dot(n[1:], v)) for n in layer])
        v = self.acts[-1]
        return [o[0] + H.dot(o[1:], v) for o in self.out]

    def gradient_step(self, x, d, mus):
        """increments of all weights: -mu * d(sum of squared errors / 2)/dw, by the chain rule along every path"""
        H = self.H
        y = self.forward(x)
        e = [a - b for a, b in zip(d, y)]
        L = len(self.ws)
        # sensitivity of every output to every activation, from the last layer back
        dout = [[[mus[-1] * e[o] * v for v in [1] + self.acts[-1]] for o in range(len(e))]]
        sens = [[self.out[o][1 + j] for j in range(len(self.acts[-1]))] for o in range(len(e))]     # dy_o / da_j
        incs = []
        for l in range(L - 1, -1, -1):
            a, below = self.acts[l + 1], self.acts[l]
            dz = [[s[j] * self.df(a[j]) for j in range(len(a))] for s in sens]                       # dy_o / dz_j
            incs.insert(0, [[mus[l] * H.total([e[o] * dz[o][j] for o in range(len(e))]) * v for v in [1] + below]
                            for j in range(len(a))])
            sens = [[H.total([r[j] * self.ws[l][j][1 + i] for j in range(len(a))]) for i in range(len(below))] for r in dz]
        return e, incs, dout[0]


def build(H, layers, n, outs, act, mu):
    return H.pa.ann.NetworkMLP(layers, n, outputs=outs, activation=act, mu=mu)


def weights(H, f, outs):
    """weights as nested lists: (hidden layers, output rows)"""
    w = H.snapshot(f.w)
    return [H.snapshot(l.w) for l in f.layers], ([w] if outs == 1 else w)


def set_weights(H, f, ws, out, outs):
    f.w = H.array(out[0] if outs == 1 else out)
    for l, w in zip(f.layers, ws):
        l.w = H.array(w)


def draw_weights(H, layers, n, outs, tag=""):
    sizes = [n] + list(layers)
    ws = [H.grid("w%s%d_" % (tag, l), sizes[l + 1], sizes[l] + 1) for l in range(len(layers))]
    return ws, H.grid("v" + tag, outs, sizes[-1] + 1)


def target(H, name, outs):
    return H.reals(name, outs)


def pack(H, d, outs):
    """a target in the form update takes it"""
    return d[0] if outs == 1 else H.array(d)


def rows(H, ds, outs):
    """targets in the form train and test take them"""
    return H.array([d[0] for d in ds]) if outs == 1 else H.array(ds)


def unpack(H, y, outs):
    return [y] if outs == 1 else H.leaves(y)
