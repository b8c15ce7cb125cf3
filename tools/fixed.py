"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo (development only)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = [('toml', 'C39'), ('html', 'C39'), ('laesa', 'C40'), ('levenshtein_distance must search', 'C01'), ('must not truncate', 'C01'), ('free its buffers', 'C38'), ('2d_blocks', 'C06'),
     ('passjoin', 'C07'), ('pairwise_leader', 'C10'), ('key_collision', 'C12'), ('adaptive_sorted', 'C15'),
     ('sorted neighborhood must see', 'C14'), ('ppjoin', 'C17'), ('quickjoin', 'C18'), ('vp_tree', 'C19'), ('nn_descent', 'C20'),
     ('minhash', 'C21'), ('simhash', 'C22'), ('monopartite', 'C25'), ('floatsam', 'C26'), ('sparse', 'C24'), ('weighted_jaccard', 'C24'),
     ('jaccard', 'C23'), ('best_matching', 'C27'), ('hashjoin', 'C35'), ('cologne', 'C32'), ('rusalka', 'C33'), ('WordTokenizer', 'C34'),
     ('split', 'C37'), ('transform', 'C37'), ('ngrams', 'C29'), ('fingerprint', 'C30'), ('skeleton', 'C31'), ('omission', 'C31'), ('squeeze', 'C36')]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        p = [v for k, v in M if k in s][0]
        fixed.append('fixed: property=%s %s %s' % (p, h, s[5:]))
f = os.path.join(ROOT, 'known_findings.json')
k = json.load(open(f))
k['fixed'] = fixed
with open(f, 'w') as o:
    json.dump(k, o, indent=1, ensure_ascii=False)
    o.write('\n')
print('\n'.join(fixed[-6:]))
