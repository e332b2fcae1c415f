# whole existing suite over the stand-in
T=/repo/pythagoras/_000_tests
W=$(mktemp -d); mkdir $W/home $W/tmp
export HOME=$W/home TMPDIR=$W/tmp PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PIP_NO_INDEX=1 CUDA_VISIBLE_DEVICES="" OMP_NUM_THREADS=2
export PYTHONPATH=/verif/shim:/verif/stubs:/repo
cd $W
timeout 850 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --rootdir=$T --confcutdir=$T -x -n 8 $T --ignore=$T/_050_safe_functions/test_package_manager.py --ignore=$T/_070_pure_functions/guards/test_package_dependency_guards.py --ignore=$T/_070_pure_functions/test_pure_fibonacci_small.py "$@" 2>&1 | tail -8
rm -rf $W
