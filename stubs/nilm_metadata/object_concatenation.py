def recursively_update_dict(dict_to_update, source_dict):
    """Extend lists and update dicts of `dict_to_update`, in place."""
    for key, value in source_dict.items():
        if key not in dict_to_update:
            dict_to_update[key] = value
            continue
        old = dict_to_update[key]
        if isinstance(value, dict):
            assert isinstance(old, dict)
            recursively_update_dict(old, value)
        elif isinstance(value, list):
            assert isinstance(old, list)
            old.extend(value)
        else:
            dict_to_update[key] = value


def _t(size, cats, on=5, parent='appliance', control=('manual',)):
    return {'parent': parent, 'n_ancestors': 1, 'on_power_threshold': on,
            'control': list(control),
            'categories': {'traditional': cats, 'size': size}}


_TYPES = {
    'fridge': ('large', 'cold', 50), 'freezer': ('large', 'cold', 50),
    'fridge freezer': ('large', 'cold', 50),
    'kettle': ('small', 'cooking', 2000), 'toaster': ('small', 'cooking', 10),
    'microwave': ('small', 'cooking', 200), 'electric oven': ('large', 'cooking', 100),
    'washing machine': ('large', 'wet', 20), 'dish washer': ('large', 'wet', 10),
    'washer dryer': ('large', 'wet', 10), 'tumble dryer': ('large', 'wet', 10),
    'light': ('small', 'lighting', 10), 'lamp': ('small', 'lighting', 10),
    'television': ('small', 'consumer electronics', 10),
    'computer': ('small', 'ICT', 10), 'laptop computer': ('small', 'ICT', 10),
    'electric space heater': ('large', 'heating', 10),
    'sockets': ('small', 'misc', 10), 'unknown': ('small', 'misc', 10),
}


_SYNONYMS = {'fridge': ['refrigerator'], 'television': ['TV', 'telly'], 'washing machine': ['washer'], 'microwave': ['microwave oven'], 'dish washer': ['dishwasher']}
_CONTROL = {'fridge': ('thermostat',), 'freezer': ('thermostat',), 'washing machine': ('manual', 'timer'), 'electric space heater': ('manual', 'thermostat', 'timer')}
_DURATIONS = {'fridge': (12, 60), 'kettle': (0, 12), 'washing machine': (160, 300), 'microwave': (30, 12), 'dish washer': (300, 300)}     # least time off, least time on


def get_appliance_types():
    types = {k: _t(s, c, on, control=_CONTROL.get(k, ('manual',))) for k, (s, c, on) in _TYPES.items()}
    for k, names in _SYNONYMS.items():
        types[k]['synonyms'] = list(names)
    for k, (off, on) in _DURATIONS.items():
        types[k]['min_off_duration'], types[k]['min_on_duration'] = off, on
    return types
