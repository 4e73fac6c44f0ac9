import importlib

MODULES = {
    'c_hangle': ['C01', 'C02', 'C03', 'C04'],
    'c_tokenizer': ['C05', 'C06', 'C07', 'C08'],
    'c_utils': ['C09', 'C10', 'C11', 'C12'],
    'c_word': ['C13', 'C14', 'C15', 'C16'],
    'c_vector': ['C17', 'C18'],
    'c_postagger': ['C19', 'C20'],
    'c_lemma': ['C21', 'C22'],
    'c_noun': ['C23', 'C24', 'C25'],
    'c_predicator': ['C26'],
    'c_pos': ['C27'],
    'c_system': ['C28', 'C29', 'C30'],
    'c_defaults': ['C31'],
    'c_runs': ['C32', 'C33', 'C34'],
    'c_relations': ['C35', 'C36'],
    'c_together': ['C37'],
    'c_limits': ['C38'],
    'c_logs': ['C39'],
}
# the same checks on large inputs
LARGE = dict.fromkeys(('c_hangle', 'c_tokenizer', 'c_utils', 'c_word', 'c_vector', 'c_postagger', 'c_noun', 'c_lemma', 'c_predicator', 'c_pos'), 'c_large')
LARGE.update(dict.fromkeys(('c_system', 'c_relations', 'c_together', 'c_limits', 'c_logs'), 'c_large_system'))
PROPERTIES = [p for m in MODULES.values() for p in m]


def load(pid):
    for m, ps in MODULES.items():
        if pid in ps:
            importlib.import_module(m)
            if LARGE.get(m):
                importlib.import_module(LARGE[m])
            return
    raise SystemExit('unknown property ' + pid)
