"""Scratch build of the repository's working tree.

The Python sources are copied outside of /repo and the (git-ignored) schema
repositories are generated there from the working tree's schemas, exactly as
the project's own build tasks do.
"""

from pathlib import Path
import atexit
import os
import shutil
import sys
import tempfile

repo_dir = Path(os.environ.get('HV_REPO', '/repo'))


def scratch_root() -> Path:
    for i in ('/dev/shm', '/tmp'):
        path = Path(i)
        if path.is_dir() and os.access(path, os.W_OK):
            try:
                with tempfile.NamedTemporaryFile(dir=path):
                    pass
                return path
            except OSError:
                continue
    return Path(tempfile.gettempdir())


def create_scratch() -> Path:
    path = Path(tempfile.mkdtemp(prefix='hatverif-', dir=scratch_root()))
    pid = os.getpid()

    def cleanup():
        if os.getpid() == pid:
            shutil.rmtree(path, ignore_errors=True)

    atexit.register(cleanup)
    return path


def build(scratch: Path) -> Path:
    """Build the repository, returns directory for sys.path"""
    dst = scratch / 'build'
    src_py = dst / 'src_py'
    shutil.copytree(repo_dir / 'src_py', src_py,
                    ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))

    import hat.json
    import hat.sbs

    common = src_py / 'hat/event/common'
    json_paths = sorted((repo_dir / 'schemas_json').rglob('*.yaml'))
    hat.json.encode_file(hat.json.create_schema_repository(*json_paths),
                         common / 'json_schema_repo.json', indent=None)

    sbs_paths = sorted((repo_dir / 'schemas_sbs').rglob('*.sbs'))
    hat.json.encode_file(hat.sbs.Repository(*sbs_paths).to_json(),
                         common / 'sbs_repo.json', indent=None)
    return src_py


def activate(src_py: Path):
    """Make `hat.event` importable from the scratch build"""
    sys.dont_write_bytecode = True
    sys.path.insert(0, str(src_py))

    import hat
    hat_dir = str(src_py / 'hat')
    if hat_dir not in list(hat.__path__):
        # `hat` is a namespace package that might already be imported
        try:
            hat.__path__._recalculate()
        except AttributeError:
            pass
    import hat.event.common
    got = Path(hat.event.common.__file__).resolve()
    if src_py.resolve() not in got.parents:
        raise Exception(f'hat.event imported from {got}')
