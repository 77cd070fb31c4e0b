OP = 'hyvr/input/option_parsing.py'
PA = 'hyvr/input/parameters.py'
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, ext=False):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, ext=ext))


bug('c01-linebreak', 'C01',
    [(OP, "s = ''.join(string.split()) # remove all whitespace first",
      "s = string.replace(' ', '') # remove all whitespace first")],
    'a list of names that is continued on the next line, or tabs',
    'line breaks inside lists become part of the items, so a valid ini-file is rejected',
    r'''
t = model(a=sheet(facies=['f0', 'f1']))
o = ok(t.replace('facies = [f0, f1]', 'facies = [f0,\n    f1]').replace('ae_prob = [[1.0]]', 'ae_prob = [\n  [1.0]\n  ]'))
expect(o.data['facies'].max() <= 1)
''')

bug('c02-ragged', 'C02',
    [(OP, "        else:\n            flat.append(-1)\n    return flat",
      "        else:\n            flat.append(max(flat_list))\n    return flat")],
    'a list of lists with rows of different length, one of which has the right length',
    'rows that are too short are accepted for options with fixed row length',
    r'''
good = model(a=sheet(), hydraulics=dict(ycorlengths=[[3., 2., 1.]]*3))
ok(good)
bad = run(model(a=sheet(), hydraulics=dict(ycorlengths=[[3., 2., 1.], [3., 2.], [3., 2., 1.]])))
expect(bad.error is not None, 'ragged list accepted')
''')

bug('c02-anylength', 'C02',
    [(OP, "if l1[i] != l2[i] and l1[i] != -1 and l2[i] != -1:",
      "if l1[i] < l2[i] and l1[i] != -1 and l2[i] != -1:")],
    'an option with one length per item of another option, and an item that is shorter than demanded',
    'too short inner lists are accepted',
    r'''
s = dict(strata=['s0', 's1'], strata_contact_models=[['flat', 2.]], ae=['a', 'b'], ae_in_strata=[['a', 'b'], ['a']],
         ae_prob=[[0.5, 0.5], [1.0]], ae_z_mean=[[9., 9.], [9.]], avul_prob=[[0], [0]], avul=[[0, 0], [0, 0]],
         bg_facies=['f0', 'f0'], bg_azim=[0., 0.], bg_dip=[0., 0.])
ok(model(a=sheet(), b=sheet(), strata=s))
s2 = dict(s, ae_z_mean=[[9.], [9.]])
expect(run(model(a=sheet(), b=sheet(), strata=s2)).error is not None)
from hyvr.input.option_parsing import Section, Option, ShapeError
sec = Section('s', [Option('a', list, shape=[-1, -1], datatype=str), Option('b', list, shape='a', datatype=float)])
try:
    v = sec.parse({'a': '[[x, y], [z]]', 'b': '[[1], [2]]'})
except ShapeError:
    pass
else:
    expect(False, v)
''')

bug('c02-positive', 'C02',
    [(OP, "shape[len(shape)-1-i] = shape_in_file[len(shape_in_file)-1-i]",
      "shape[len(shape)-1-i] = shape_in_file[-1]")],
    'a shape with two free dimensions whose lengths differ in the file',
    'valid values of options with more than one free dimension are rejected',
    r'''
s = dict(strata=['s0', 's1', 's2', 's3'], strata_contact_models=[['random', 1., 0., 1., 1.], ['random', 2., 0., 1., 1.], ['random', 3., 0., 1., 1.]],
         ae=['a'], ae_in_strata=[['a']]*4, ae_prob=[[1.]]*4, ae_z_mean=[[9.]]*4, avul_prob=[[0]]*4, avul=[[0, 0]]*4,
         bg_facies=['f0']*4, bg_azim=[0.]*4, bg_dip=[0.]*4)
o = ok(model(a=sheet(), strata=s))
expect(o.data['strata'].max() == 3)
''')

bug('c03-falsy', 'C03',
    [(OP, "                if not self.validation_func(value):\n                    raise ValueError('Invalid input for option ' + self.name +\n                                    ' in section ' + section.name)\n                return value",
      "                if value and not self.validation_func(value):\n                    raise ValueError('Invalid input for option ' + self.name +\n                                    ' in section ' + section.name)\n                return value")],
    'an empty value of an option with a list of allowed values',
    'values that count as false are not validated',
    r'''
t = model(a=sheet(), grd=dict(heterogeneity_level='internal'))
ok(t)
expect(run(t.replace('heterogeneity_level = internal', 'heterogeneity_level =')).error is not None)
''')

bug('c03-zero', 'C03',
    [(OP, "        return bool(int(string))", "        return len(string) > 0")],
    'a boolean option that is switched off with 0',
    '0 is read as true',
    r'''
o = ok(model(a=sheet()).replace('[strata]', 'hydraulics = 0\n[strata]'))
expect('k_iso' not in o.data)
''')

bug('c03-alternative', 'C03',
    [(OP, "                del section.dict[other_name]\n                break",
      "                del section.dict[other_name]\n                continue"),
     (OP, "while len(alternatives) != 0 and self.name not in section.dict:", "while len(alternatives) != 0:")],
    'an option that is given together with one of its alternative names',
    'the alternative replaces the value given under the standard name',
    r'''
from hyvr.input.option_parsing import Section, Option
s = Section('s', [Option('a', int, alternatives=['b', 'c'])])
expect(s.parse({'a': '1', 'b': '2', 'c': '3'})['a'] == 1)
expect(Section('s', [Option('a', int, alternatives=['b', 'c'])]).parse({'b': '2', 'c': '3'})['a'] == 2)
''')

bug('c04-dz', 'C04',
    [(PA, "    model = Section('model', options['model']).parse(dict(p['model']))\n    del sections[sections.index('model')]\n    if model['dy'] == None:\n        model['dy'] = model['dx']\n    if model['dz'] == None:\n        model['dz'] = model['dx']",
      "    model = Section('model', options['model']).parse(dict(p['model']))\n    del sections[sections.index('model')]\n    if model['dy'] == None:\n        model['dy'] = model['dx']\n    if model['dz'] == None:\n        model['dz'] = model['dy']")],
    'dy given and dz omitted',
    'the vertical spacing is that of y instead of the documented default dx',
    r'''
o = ok(model(a=sheet(), grd=dict(dx=1., dy=2., lx=4., ly=4., lz=4.)))
expect(o.data['facies'].shape == (4, 2, 4), o.data['facies'].shape)
''')

bug('c04-bulbset', 'C04',
    [(PA, "        if elements[section]['structure'] == 'bulb_sets' or elements[section]['structure'] == 'random':\n            assert_exists('bulbset_dist', dictionary, section)",
      "        if elements[section]['structure'] == 'bulb_sets':\n            assert_exists('bulbset_dist', dictionary, section)")],
    'an element with random structure and no bulbset_dist',
    'an ini-file that lacks what its structure needs is not rejected',
    r'''
t = model(a=trough(structure='random', dipset_dist=1.))
from hyvr.input.parameters import parameters
open(os.path.join(SCRATCH, 'm.ini'), 'w').write(t)
try:
    with contextlib.redirect_stdout(io.StringIO()):
        parameters(os.path.join(SCRATCH, 'm.ini'))
except Exception:
    pass
else:
    expect(False, 'accepted')
''')

bug('c04-altfacies', 'C04',
    [(PA, "parse_facies(facies_list, hydraulics['hydrofacies']) for facies_list in elements[section]['altfacies']",
      "parse_facies(facies_list, elements[section]['facies']) for facies_list in elements[section]['altfacies']"),
     (PA, "        # get facies number\n        try:\n            elements[section]['facies'] = parse_facies(elements[section]['facies'], hydraulics['hydrofacies'])",
      "        # get facies number\n        try:\n            names = elements[section]['facies']\n            elements[section]['facies'] = parse_facies(names, hydraulics['hydrofacies'])"),
     (PA, "        if elements[section]['altfacies'] is not None:\n            try:",
      "        if elements[section]['altfacies'] is not None:\n            elements[section]['facies'] = names\n            try:"),
     (PA, "                raise ValueError('Invalid facies string in section ' + section + ' in option altfacies!')",
      "                raise ValueError('Invalid facies string in section ' + section + ' in option altfacies!')\n            elements[section]['facies'] = parse_facies(names, hydraulics['hydrofacies'])")],
    'an element with alternating facies whose facies are not the first ones of the list of hydrofacies',
    'alternating facies are positions in the list of the element instead of the list of hydrofacies',
    r'''
o = ok(model(8, 1, 8, a=sheet(structure='dip', dipset_dist=1., dip=[45., 45.], facies=['f2', 'f1'], altfacies=[['f1'], ['f2']])))
expect(set(np.unique(o.data['facies'])) == {1, 2}, np.unique(o.data['facies']))
''')

bug('c05-bgdip', 'C05',
    [(PA, "            elem['bg_dip'] = elem['bg'][2]", "            elem['bg_dip'] = elem['bg'][-2]")],
    'an old-format ini-file with background values for an element',
    'the background dip of elements of old ini-files is their azimuth',
    r'''
from hyvr.input.parameters import get_new_parameters_from_deprecated as g
run_ = dict(modeloutputs=[], dataoutputs=['npz'], flag_ow=True, anisotropy=True, het=True)
mod = dict(hetlev='internal', display=False)
st = dict(ssm=['s'], bg=[0., 10., 20.], ae_table=None, save_aelu=False, ssm_ae=[['a']])
hy = dict(hydro=['f0', 'f1'], gen=True)
el = dict(a=dict(geo_ztrend=None, bg=[1., 30., 40.], dipset_d=1., structure='massive', geometry='sheet', contact='flat', contact_model=None))
r = g(run_, mod, st, hy, {}, el)
e = r[5]['a']
expect((e['bg_facies'], e['bg_azim'], e['bg_dip']) == (1, 30., 40.), e)
''')

bug('c05-corly', 'C05',
    [(PA, "        cm['corly'] = elem['contact_model'][2]", "        cm['corly'] = elem['contact_model'][1]")],
    'an old-format ini-file with an undulating element contact and different correlation lengths',
    'the correlation length in y of element contacts is that in x',
    r'''
from hyvr.input.parameters import parse_old_elem_contact_model as f
expect(f(dict(contact='random', contact_model=[1., 2., 3.])) == dict(mode='random', var=1., corlx=2., corly=3.))
''')

bug('c05-het', 'C05',
    [(PA, "    model['heterogeneity'] = run['het']", "    model['heterogeneity'] = run['het'] and run['anisotropy']")],
    'an old-format ini-file that switches off anisotropy',
    'heterogeneity is switched off together with anisotropy',
    r'''
from hyvr.input.parameters import get_new_parameters_from_deprecated as g
run_ = dict(modeloutputs=[], dataoutputs=['npz'], flag_ow=True, anisotropy=False, het=True)
mod = dict(hetlev='internal', display=False)
st = dict(ssm=['s'], bg=[0., 10., 20.], ae_table=None, save_aelu=False, ssm_ae=[[]])
hy = dict(hydro=['f0', 'f1'], gen=True)
r = g(run_, mod, st, hy, {}, {})
expect(r[1]['heterogeneity'] is True and r[1]['anisotropy'] is False)
''')

bug('c06-early', 'C06',
    [(PA, "    # create model object\n    model = Model(model_dict, strata_dict, elements, flowtrans)\n\n    # set up directories\n    set_up_directories(run, inifile, flag_ow)\n",
      "    # create model object\n    model = Model(model_dict, strata_dict, elements, flowtrans)\n"),
     (PA, "    # Assign architectural element identifiers\n", "    # set up directories\n    set_up_directories(run, inifile, flag_ow)\n\n    # Assign architectural element identifiers\n")],
    'overwriting requested, and an ini-file with an element section that is not listed in the strata section',
    'the old results are removed although the ini-file is rejected',
    r'''
t = model(a=sheet())
o = ok(t)
before = o.files
o2 = run(t.replace('[hydraulics]', '[b]\ngeometry = sheet\nstructure = massive\ncontact_model = [flat]\nfacies = [f0]\nlens_thickness = -1\n[hydraulics]'), overwrite=True, directory=o.dir)
expect(o2.error is not None)
expect(o2.files == before, o2.files)
''')

bug('c06-flag', 'C06',
    [(PA, "    if overwrite_old_output is None:\n        overwrite_old_output = run['overwrite_old_output']",
      "    if not overwrite_old_output:\n        overwrite_old_output = run['overwrite_old_output']")],
    'the call forbids overwriting while the ini-file allows it',
    'results are replaced although the argument of the call forbids it',
    r'''
t = model(a=sheet(), run=dict(overwrite_old_output=True))
o = ok(t)
expect(run(t, directory=o.dir, overwrite=False).error is not None)
''')

bug('c06-dirs', 'C06',
    [(PA, "                    shutil.rmtree(path)\n", "                    shutil.rmtree(path / 'MODFLOW', ignore_errors=True)\n")],
    'a run with several realizations that is repeated with fewer of them and overwriting',
    'results of the old run remain in the run directory',
    r'''
t = model(a=sheet(), run=dict(numsim=2, overwrite_old_output=True))
o = ok(t)
o2 = ok(t.replace('numsim = 2', 'numsim = 1'), directory=o.dir)
expect(not any('real_' in f for f in o2.files), o2.files)
''')

bug('c07-stem', 'C07',
    [(PA, "            run['runname'] = pathlib.Path(ini_name).stem", "            run['runname'] = ini_name.split('.')[0]")],
    'a file name with more than one dot and no run name',
    'two ini-files that differ after the first dot share a run directory',
    r'''
o = ok(model(a=sheet()), name='v1.2.ini')
expect(os.path.isdir(os.path.join(o.dir, 'v1.2')), o.files)
''')

bug('c07-modeldir', 'C07',
    [(PA, "    # This should overwrite all other settings (except overwrite_old_output)\n    if ini_name.endswith(\"_autogenerated_backup.ini\"):",
      "    # This should overwrite all other settings (except overwrite_old_output)\n    if ini_name.endswith(\"_autogenerated_backup.ini\") and run['modeldir'] is None:")],
    'a backup of an ini-file with a model directory that was moved to another place',
    'running the backup writes to the original place instead of its own directory',
    r'''
d = os.path.join(SCRATCH, 'md')
o = ok(model(a=sheet(), run=dict(modeldir=d, runname='rr')))
shutil.move(d, os.path.join(SCRATCH, 'moved'))
o2 = run(None, directory=os.path.join(SCRATCH, 'moved', 'rr'), name='rr_autogenerated_backup.ini', overwrite=True)
expect(not os.path.exists(d), 'written elsewhere')
''')

bug('c07-two', 'C07',
    [('hyvr/sim.py', "        if run_settings['numsim'] > 1:", "        if run_settings['numsim'] > 2:")],
    'exactly two realizations',
    'the second realization replaces the first one',
    r'''
o = ok(model(a=sheet(), run=dict(numsim=2)))
expect(len([f for f in o.files if f.endswith('.npz')]) == 2, o.files)
''')

bug('c32-false', 'C32',
    [('hyvr/__main__.py', "if args.overwrite == False:\n    args.overwrite = None\n", "")],
    'overwriting allowed by the ini-file and no --overwrite on the command line',
    'the program refuses to replace old results although the ini-file allows it',
    r'''
d = os.path.join(SCRATCH, 'c')
os.mkdir(d)
f = os.path.join(d, 'm.ini')
open(f, 'w').write(model(a=sheet(), run=dict(overwrite_old_output=True)))
for i in range(2):
    rc = subprocess.call([sys.executable, '-m', 'hyvr', f], cwd=PKG, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    expect(rc == 0, i)
''')

bug('c32-exit', 'C32',
    [('hyvr/__main__.py', "    if args.filename == 0:\n        raise\n    else:\n        sys.exit(1)",
      "    if args.filename == 0:\n        raise\n    elif not isinstance(e, OSError):\n        sys.exit(1)")],
    'a failure that is an OSError, such as an existing run directory',
    'the program ends with exit code 0 although it refused to run',
    r'''
d = os.path.join(SCRATCH, 'c')
os.mkdir(d)
f = os.path.join(d, 'm.ini')
open(f, 'w').write(model(a=sheet()))
rcs = [subprocess.call([sys.executable, '-m', 'hyvr', f], cwd=PKG, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for i in range(2)]
expect(rcs[0] == 0 and rcs[1] != 0, rcs)
''')
