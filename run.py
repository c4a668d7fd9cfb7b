#!/usr/bin/env python3
"""run.py ID: builds the check's harness from /repo's working tree, explores, confirms failures, writes evidence.

Exits with 0 if the property held on everything explored, 1 with a VIOLATION line otherwise.
BOMBA_REPO overrides the tree to check, MC_WORKERS the number of processes (both for development only)."""
import atexit, glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('BOMBA_REPO', '/repo')
FLAGS = ['-std=c++20', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-w', '-pthread',
		'-include', 'cstdint', '-include', 'algorithm']
sys.path.insert(0, HERE)
from checks.config import CHECKS

def known_findings(prop):
	found = {}
	path = os.path.join(HERE, 'known_findings.txt')
	if os.path.exists(path):
		for line in open(path, encoding='utf-8'):
			m = re.match(r'KNOWN-FINDING: property=(\S+) signature=(\S+) (.*)', line)
			if m and m.group(1) == prop:
				found[m.group(2)] = m.group(3)
	return found

def build(prop, cfg, out, tier):
	"""Compiles every source of the check in parallel"""
	jobs = []
	for entry in cfg['sources']:
		name, extra = (entry, []) if isinstance(entry, str) else (entry[0], entry[1])
		source = os.path.join(HERE, 'checks', name)
		name = os.path.splitext(name)[0] + ''.join(re.sub(r'\W', '_', flag) for flag in extra)
		target = os.path.join(out, name)
		cmd = ['g++'] + FLAGS + cfg.get('flags', []) + (cfg.get('thorough_flags', []) if tier == 'thorough' else []) + extra + ['-I', REPO, '-I', os.path.join(HERE, 'lib'), '-I', os.path.join(HERE, 'checks'),
				source, '-o', target] + cfg.get('libs', [])
		log = open(target + '.build.log', 'w')
		jobs.append((name, target, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT)))
	binaries = []
	for name, target, process in jobs:
		if process.wait() != 0:
			sys.stderr.write(open(target + '.build.log').read()[:6000])
			print('could not build %s against %s' % (name, REPO))
			sys.exit(3)
		binaries.append((name, target))
	return binaries

SCRATCH = []
def scratch():
	"""A folder for files made by harnesses, removed at the end"""
	if not SCRATCH:
		SCRATCH.append(tempfile.mkdtemp(prefix='bomba_check_'))
		atexit.register(shutil.rmtree, SCRATCH[0], True)
	return SCRATCH[0]

def environment(tier):
	env = dict(os.environ)
	env['MC_TIER'] = tier
	env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:allocator_may_return_null=0:' \
			'max_allocation_size_mb=3000:quarantine_size_mb=24:malloc_context_size=12:detect_stack_use_after_return=0'
	env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=99:report_signal_unsafe=0:detect_deadlocks=0'
	env['BOMBA_REPO'] = REPO
	env['MC_SCRATCH'] = scratch()
	return env

def crash_signature(text, code):
	m = re.search(r'ERROR: AddressSanitizer: (\S+)', text)
	if m:
		frame = ''
		for f in re.findall(r'#\d+ 0x\w+ in (.*?) (/\S+)', text):
			if REPO in f[1]:
				frame = '@' + os.path.basename(f[1].split(':')[0])
				break
		return 'crash:' + m.group(1) + frame
	m = re.search(r'WARNING: ThreadSanitizer: (.*?) \(pid', text)
	if m:
		return 'crash:' + m.group(1).replace(' ', '-')
	if 'terminate called' in text:
		return 'crash:terminate'
	return 'crash:exit%d' % code

def replay(binary, path, tier, limit):
	"""Returns (kind, signature, text): kind is held, failed, crashed or hung"""
	try:
		r = subprocess.run([binary, 'replay', path], env=environment(tier), timeout=limit, stdin=subprocess.DEVNULL,
				stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
	except subprocess.TimeoutExpired as e:
		return 'hung', 'hang', (e.stdout or b'').decode('utf-8', 'replace')
	text = r.stdout.decode('utf-8', 'replace')
	if r.returncode == 0:
		return 'held', '', text
	if r.returncode == 42:
		m = re.search(r'^FAILED (.*)$', text, re.M)
		return 'failed', m.group(1) if m else '?', text
	if r.returncode == 3:
		return 'broken', '', text
	return 'crashed', crash_signature(text, r.returncode), text

def main():
	prop = sys.argv[1]
	tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
	seed = int(os.environ.get('VERIF_SEED', '1') or 1)
	cfg = CHECKS[prop]
	began = time.time()
	out = os.path.join(HERE, 'out', prop)
	shutil.rmtree(out, ignore_errors=True)
	os.makedirs(out)
	os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
	binaries = build(prop, cfg, out, tier)
	budget = (cfg.get('quick_s', 500) if tier == 'quick' else cfg.get('thorough_s', 3000))
	workers = int(os.environ.get('MC_WORKERS', '0')) or min(8, max(2, os.cpu_count() or 8))
	hang = cfg.get('hang_s', 20)
	total = {'executions': 0, 'transitions': 0, 'checks': 0, 'validated': 0, 'mismatches': 0, 'states': 0, 'outcomes': 0, 'units': 0}
	complete, samples, per, counters, failures, crashes = True, [], {}, {}, [], 0
	for name, binary in binaries:
		run = binary + '.run'
		os.makedirs(run)
		left = max(30, budget - (time.time() - began))
		r = subprocess.run([binary, 'run', run, str(left), str(workers), str(hang)], env=environment(tier), stdin=subprocess.DEVNULL,
				stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
		if r.returncode != 0:
			print('exploration of %s ended with %d' % (name, r.returncode))
			sys.stdout.write(r.stdout.decode('utf-8', 'replace')[:3000])
			sys.exit(3)
		names = subprocess.run([binary, 'list'], env=environment(tier), stdout=subprocess.PIPE).stdout.decode().splitlines()
		names = [n.split('\t')[0] for n in names]
		for line in open(os.path.join(run, 'summary')):
			key, value = line.split()
			if key in ('states', 'outcomes', 'units'):
				total[key] += int(value)
			elif key == 'crashes':
				crashes += int(value)
			elif key == 'left' and int(value):
				complete = False
		for stats in sorted(glob.glob(os.path.join(run, 'stats.*'))):
			for line in open(stats, encoding='utf-8', errors='replace'):
				key, _, rest = line.rstrip('\n').partition(' ')
				if key in total:
					total[key] += int(rest)
				elif key == 'complete' and rest != '1':
					complete = False
				elif key == 'scenario':
					s, n = rest.split()
					per[names[int(s)]] = per.get(names[int(s)], 0) + int(n)
				elif key == 'counter':
					n, what = rest.split(' ', 1)
					counters[what] = counters.get(what, 0) + int(n)
				elif key == 'sample':
					samples.append(rest)
		for f in sorted(glob.glob(os.path.join(run, 'failures.*'))):
			for line in open(f, encoding='utf-8', errors='replace'):
				head, signature, message, description = line.rstrip('\n').split('\t')
				numbers = [int(x) for x in head.split()]
				failures.append({'binary': binary, 'scenario': names[numbers[0]] if numbers[0] >= 0 else None, 'unit': numbers[1],
						'choices': numbers[3:], 'signature': signature, 'message': message, 'description': description})
	# Confirm every kind of failure alone, in a fresh process
	known = known_findings(prop)
	chosen, seen = [], {}
	for f in sorted(failures, key=lambda f: (len(f['choices']), f['choices'])):
		key = (f['signature'], f['scenario'] if f['signature'] in ('crash', 'hang') else '')
		seen[key] = seen.get(key, 0) + 1
		if seen[key] <= 3 and f['scenario'] is not None:
			chosen.append(f)
	violations, known_hit, unconfirmed, confirmed = [], {}, [], set()
	unknown_deadline = time.time() + 240
	for number, f in enumerate(chosen[:60]):
		if time.time() > unknown_deadline and violations:
			break
		if f['signature'] in confirmed:
			continue
		path = os.path.join(out, 'replay-%d.txt' % number)
		result = None
		for mode in ('single', 'unit'):
			with open(path, 'w') as r:
				r.write('mode %s\nscenario %s\nunit %d\nchoices %d\n%s\n' % (mode, f['scenario'], f['unit'], len(f['choices']),
						' '.join(str(c) for c in f['choices'])))
			result = replay(f['binary'], path, tier, hang * 2 if mode == 'single' else 240)
			if result[0] in ('failed', 'crashed') or (result[0] == 'hung' and mode == 'single'):
				break
		kind, signature, text = result
		if kind not in ('failed', 'crashed', 'hung'):
			unconfirmed.append(f)
			continue
		with open(path, 'a') as r:
			r.write('# %s with: %s replay %s\n# %s\n' % (signature, f['binary'], path, f['description']))
			for line in text.splitlines()[:60]:
				r.write('# ' + line + '\n')
		if f['signature'] not in ('crash', 'hang'):
			confirmed.add(f['signature'])
		if (signature, kind) in confirmed and kind != 'failed':
			continue
		confirmed.add((signature, kind))
		if signature in known:
			known_hit[signature] = True
		else:
			violations.append((signature, path, text))
	for signature in known_hit:
		print('KNOWN-FINDING: property=%s %s' % (prop, known[signature]))
	for signature, path, text in violations[:10]:
		print('VIOLATION property=%s replay=%s' % (prop, path))
		print('  ' + signature)
		for line in text.splitlines()[:8]:
			print('  | ' + line[:240])
	coverage = {
		'states': total['states'], 'transitions': total['transitions'], 'traces_validated_against_impl': total['validated'],
		'executions': total['executions'], 'assertions_evaluated': total['checks'], 'distinct_outcomes': total['outcomes'],
		'work_units': total['units'], 'exhausted_within_bounds': complete, 'executions_per_scenario': per, 'events_counted': counters,
		'crashed_executions': crashes, 'unreproduced_failures': len(unconfirmed), 'nondeterministic_decisions': total['mismatches'],
		'bounds': cfg['bounds'], 'binding': cfg.get('binding', 'every execution runs the code of %s compiled into the harness; '
				'the reference model predicts its outcome and the prediction is compared' % REPO),
		'samples': samples[:8] or ['(none)'],
	}
	evidence = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': coverage, 'wall_s': round(time.time() - began, 2)}
	with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as e:
		json.dump(evidence, e, indent=1)
	print('%s %s: %d executions, %d states, %d transitions, %d validated, %s, %.1f s' % (prop, tier, total['executions'], total['states'],
			total['transitions'], total['validated'], 'exhausted' if complete else 'NOT exhausted', time.time() - began))
	for f in unconfirmed[:5]:
		print('not reproduced: %s %s %s' % (f['signature'], f['message'][:300], f['description'][:300]))
	for binary in binaries: # The executables are big
		if not violations and not os.environ.get('MC_KEEP'):
			os.unlink(binary[1])
	sys.exit(1 if violations else 0)

main()
