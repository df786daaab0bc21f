from collections.abc import Mapping
from copy import deepcopy


def recursively_update_dict(to_update, source):
    """Recursively extends lists in `to_update` with lists in `source`,
    and updates dicts."""
    for key, value_from_source in source.items():
        if isinstance(value_from_source, Mapping):
            value_from_to_update = to_update.get(key, {})
            recursively_update_dict(value_from_to_update, value_from_source)
            to_update[key] = value_from_to_update
        elif (key in to_update and isinstance(value_from_source, list)
              and isinstance(to_update[key], list)):
            to_update[key].extend(value_from_source)
        else:
            to_update[key] = value_from_source


def _t(name, traditional, room=(), size='small', threshold=None, synonyms=(),
       electrical=(), control=()):
    d = {
        'type': name,
        'parent': 'appliance',
        'categories': {
            'traditional': traditional,
            'size': size,
            'electrical': list(electrical) or ['resistive'],
        },
        'room': list(room),
        'control': list(control) or ['manual'],
    }
    if threshold is not None:
        d['on_power_threshold'] = threshold
    if synonyms:
        d['synonyms'] = list(synonyms)
    return d


_TYPES = [
    _t('appliance', 'misc'),
    _t('fridge', 'cold', ['kitchen'], 'large', 50, ['refrigerator'],
       ['single-phase induction motor']),
    _t('freezer', 'cold', ['kitchen'], 'large', 50),
    _t('fridge freezer', 'cold', ['kitchen'], 'large', 50),
    _t('kettle', 'cooking', ['kitchen'], 'small', 2000),
    _t('toaster', 'cooking', ['kitchen'], 'small', 1000),
    _t('microwave', 'cooking', ['kitchen'], 'small', 200),
    _t('stove', 'cooking', ['kitchen'], 'large', 20),
    _t('electric oven', 'cooking', ['kitchen'], 'large', 20),
    _t('dish washer', 'wet', ['kitchen'], 'large', 10, ['dishwasher']),
    _t('washing machine', 'wet', ['utility'], 'large', 20),
    _t('washer dryer', 'wet', ['utility'], 'large', 20),
    _t('tumble dryer', 'wet', ['utility'], 'large', 20),
    _t('light', 'lighting', [], 'small', 10, ['lamp', 'lighting'],
       ['incandescent'], ['manual', 'motion']),
    _t('television', 'consumer electronics', ['lounge'], 'small', 10,
       ['TV'], ['SMPS']),
    _t('computer', 'ICT', [], 'small', 20, ['PC'], ['SMPS']),
    _t('laptop computer', 'ICT', [], 'small', 20, ['laptop'], ['SMPS']),
    _t('HTPC', 'ICT', [], 'small', 20, [], ['SMPS']),
    _t('boiler', 'heating', [], 'large', 25),
    _t('electric space heater', 'heating', [], 'large', 100,
       ['electric heat']),
    _t('air conditioner', 'heating', [], 'large', 100, ['AC']),
    _t('sockets', 'misc'),
    _t('unknown', 'misc'),
    _t('vacuum cleaner', 'misc', [], 'small', 10, ['hoover']),
]


def get_appliance_types():
    return {d['type']: deepcopy(d) for d in _TYPES}
