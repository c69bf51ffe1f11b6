"""Compare a test-run result file with the stable baseline: prints the stable tests that did not pass."""
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o = set(json.load(open(sys.argv[1]))['passed'])
bad = sorted(b - o); print(len(b), 'stable,', len(bad), 'not passed', bad[:10]); sys.exit(bool(bad))
