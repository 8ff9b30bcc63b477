from copy import deepcopy


def recursively_update_dict(d, u):
    """Recursively extends lists in d with lists in u, and updates dicts in place."""
    for k, v in u.items():
        if isinstance(v, list):
            d[k] = list(d.get(k) or []) + list(v)
        elif isinstance(v, dict):
            sub = d.get(k)
            if not isinstance(sub, dict):
                sub = {}
            recursively_update_dict(sub, v)
            d[k] = sub
        else:
            d[k] = v


def _t(type_, trad, size=None, **kw):
    cats = {'traditional': trad, 'electrical': kw.pop('electrical', ['resistive'])}
    if size:
        cats['size'] = size
    d = {'type': type_, 'categories': cats}
    d.update(kw)
    return d


_TYPES = [
    _t('fridge', 'cold', 'large', electrical=['single-phase induction motor'],
       synonyms=['refrigerator'], on_power_threshold=50, min_on_duration=60,
       min_off_duration=12, control=['thermostatic', 'always on']),
    _t('freezer', 'cold', 'large', electrical=['single-phase induction motor'],
       on_power_threshold=50, min_on_duration=60, min_off_duration=12),
    _t('fridge freezer', 'cold', 'large', on_power_threshold=50),
    _t('kettle', 'heating', 'small', on_power_threshold=2000, min_on_duration=12,
       min_off_duration=0, control=['manual']),
    _t('toaster', 'cooking', 'small', control=['manual', 'timer']),
    _t('light', 'lighting', None, electrical=['incandescent'], synonyms=['lamp']),
    _t('television', 'consumer electronics', 'small', synonyms=['TV', 'tv'],
       electrical=['SMPS'], control=['manual']),
    _t('washing machine', 'wet', 'large', on_power_threshold=20,
       min_on_duration=1800, min_off_duration=160, synonyms=['clothes washer']),
    _t('dish washer', 'wet', 'large', on_power_threshold=10,
       min_on_duration=1800, min_off_duration=1800),
    _t('microwave', 'cooking', 'small', on_power_threshold=200,
       min_on_duration=12, min_off_duration=30),
    _t('electric oven', 'cooking', 'large'),
    _t('computer', 'ICT', 'small', electrical=['SMPS'], synonyms=['PC']),
    _t('HTPC', 'ICT', 'small', electrical=['SMPS']),
    _t('unknown', 'misc', 'small'),
]


def get_appliance_types():
    return {t['type']: deepcopy(t) for t in _TYPES}
