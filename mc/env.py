"""Process environment for everything the checks start, and the rebuild of /repo's extensions."""
import os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"

FIXED = {
    "LANG": "C.UTF-8",
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONWARNINGS": "ignore",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "NUMEXPR_MAX_THREADS": "1",
    "MPLBACKEND": "Agg",
    "MPI_INCLUDE_PATH": "/usr/lib/x86_64-linux-gnu/openmpi/include",
    "MPI_LIBRARY_PATH": "/usr/lib/x86_64-linux-gnu",
    "FFTW_INCLUDE_PATH": "/usr/include", "FFTW_LIBRARY_PATH": "/usr/lib/x86_64-linux-gnu",
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_MCA_pml": "ob1", "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_mpi_yield_when_idle": "1",
    "OMPI_MCA_plm": "isolated", "OMPI_MCA_oob_tcp_if_include": "lo",
}

def make_env(scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("OMPI_", "PMIX_", "PRTE_", "ORTE_"))}
    env.update(FIXED)
    env["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env["PYTHONPATH"] = VERIF + ":" + REPO
    env["HOME"] = scratch          # no ~/.dedalus configuration of the host leaks in
    env["TMPDIR"] = scratch
    env["OMPI_MCA_orte_tmpdir_base"] = scratch
    env["VERIF_SCRATCH"] = scratch
    return env

def rebuild(env):
    """Bring /repo's Cython extensions in step with its working tree (by content)."""
    ext = "/opt/vp/lib/ext.py"
    if os.path.exists(ext):
        cmd = [PY, ext]
    else:
        cmd = [PY, "setup.py", "-q", "build_ext", "--inplace", "-j", "4"]
    p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stdout.write(p.stdout[-4000:])
        print("ERROR: the extensions of /repo do not build")
        sys.exit(2)
