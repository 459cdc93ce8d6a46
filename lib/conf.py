"""Runs PyFHD's option parsing and validation in a scratch directory."""
import contextlib, copy, io, logging, os, warnings
from pathlib import Path
from PyFHD.pyfhd_tools import pyfhd_setup as ps

INTERNAL = ("commit", "log_name", "log_time", "output_dir", "top_level_dir", "config", "obs_id")


@contextlib.contextmanager
def inside(d):
    old = os.getcwd(); os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def parse(argv):
    """The options, or None if they are refused."""
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        try:
            return vars(ps.pyfhd_parser().parse_args(argv))
        except SystemExit as e:
            return None if e.code not in (0, None) else {}


def setup(options):
    """(configuration, None), or (None, exit status) when the options are found invalid; the root logger is left as it was."""
    import argparse
    root = logging.getLogger()
    before, lvl, show = list(root.handlers), root.level, warnings.showwarning
    with contextlib.redirect_stderr(io.StringIO()) as err, contextlib.redirect_stdout(io.StringIO()):
        try:
            cfg, _ = ps.pyfhd_setup(argparse.Namespace(**copy.deepcopy(options)))
            return cfg, None
        except SystemExit as e:
            return None, e.code
        finally:
            logging.captureWarnings(False)
            warnings.showwarning = show
            for h in list(root.handlers):
                if h not in before:
                    h.close(); root.removeHandler(h)
            root.setLevel(lvl)


def put(*paths):
    for p in paths:
        p = Path(p); p.parent.mkdir(parents=True, exist_ok=True); p.write_text("x")
