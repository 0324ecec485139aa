"""Stand-in for the ROOT module: records histograms, what is filled into them, drawn, printed and written."""
import atexit, json, os

_log = {"files": [], "histograms": [], "prints": []}
_canvas = None


class _Any:
    """Style settings and the like: anything can be called, read and set."""
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()

    def __call__(self, *a, **k):
        return _Any()


class TFile(_Any):
    def __init__(self, name, mode="READ", *a):
        self._r = {"name": name, "mode": mode, "closed": False}
        _log["files"].append(self._r)

    def Close(self, *a):
        self._r["closed"] = True


class _Histo(_Any):
    def __init__(self, name, title, *a):
        self._r = {"dim": self.dim, "name": name, "title": title, "axes": [float(x) for x in a], "fills": [], "written": 0}
        _log["histograms"].append(self._r)

    def Fill(self, *a):
        if len(a) != self.dim:
            raise TypeError("Fill of a histogram of %d dimensions with %d values" % (self.dim, len(a)))
        self._r["fills"].append([float(x) for x in a])
        return 0

    def Draw(self, *a):
        if _canvas is not None:
            _canvas._shown.append(self._r["name"])

    def Write(self, *a):
        if not _log["files"] or _log["files"][-1]["closed"]:
            raise RuntimeError("histogram written without an open file")
        self._r["written"] += 1
        return 1


class TH1F(_Histo):
    dim = 1


class TH2F(_Histo):
    dim = 2


TH1D, TH1I, TH2D, TH2I = TH1F, TH1F, TH2F, TH2F


class TCanvas(_Any):
    def __init__(self, *a):
        global _canvas
        self._shown = []
        _canvas = self

    def cd(self, *a):
        global _canvas
        _canvas = self

    def Print(self, name, *a):
        _log["prints"].append({"name": name, "shows": list(self._shown)})

    SaveAs = Print


gROOT, gStyle, gPad = _Any(), _Any(), _Any()


def __getattr__(name):
    if name.startswith("k"):
        return 4
    if name.startswith("__"):
        raise AttributeError(name)
    return _Any


def _dump():
    with open(os.environ["VMON_ROOT_OUT"], "w") as f:
        json.dump(_log, f)


atexit.register(_dump)
