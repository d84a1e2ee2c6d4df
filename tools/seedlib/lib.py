import atexit, io, os, shutil, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
TMP = tempfile.mkdtemp(prefix='slashdemo-')
atexit.register(shutil.rmtree, TMP, True)
os.environ['HOME'] = TMP
os.environ['TMPDIR'] = TMP
import slash, gossip
from munch import Munch
from slash.frontend.slash_run import slash_run
EVENTS = []
sys.modules['demo_events'] = sys.modules[__name__]


def tree(files, name='suite'):
    d = os.path.join(TMP, name)
    for n, text in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(text)
    return d


def run(d, argv, config=None, hooks=None, resume=False, rerun=False):
    """One slash run in this process; returns the application."""
    del EVENTS[:]
    slash.config.backup()
    tok = object()
    try:
        base = {'run.resume_state_path': os.path.join(TMP, 'resume'), 'run.project_customization_file_path': os.path.join(TMP, 'none'),
                'run.user_customization_file_path': os.path.join(TMP, 'none2'), 'run.project_name': 'p'}
        base.update(config or {})
        for k, v in base.items():
            slash.config.assign_path(k, v)
        for n, f in (hooks or {}).items():
            gossip.register(f, 'slash.' + n, token=tok)
        out = io.StringIO()
        app = slash_run(Munch(argv=list(argv), cmd='run'), report_stream=out, working_directory=d, resume=resume, rerun=rerun)
        app.report = out.getvalue()
        return app
    finally:
        gossip.unregister_token(tok)
        slash.config.restore()


def check(cond, what):
    if not cond:
        print('FAILED:', what, EVENTS)
        sys.stdout.flush()
        shutil.rmtree(TMP, True)
        os._exit(1)
