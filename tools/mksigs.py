"""One-off helper that drafted spec/Sigs.tla (the table is reviewed and committed; no check runs this)."""
import sys, pkgutil, importlib, inspect, math
sys.path.insert(0, '/repo')
import deltares_coastal_structures_toolbox.functions as F
SHORT = {'hydraulic.wave_overtopping.': 'ov_', 'hydraulic.wave_runup.': 'ru_', 'hydraulic.wave_transmission.': 'tr_',
         'structural.forces_caisson.': 'fc_', 'structural.forces_crestwall.': 'fw_',
         'structural.stability_concrete_armour.': 'ca_', 'structural.stability_rock_armour.': 'ra_',
         'structural.stability_rock_rear.': 'rr_', 'structural.stability_toe_berm.': 'tb_'}
def short(n):
    n = n.replace(F.__name__ + '.', '')
    for k, v in SHORT.items():
        if n.startswith(k): return v + n[len(k):]
    return n
def lit(d):
    if d is inspect._empty: return '"req"'
    if d is None: return '"None"'
    if isinstance(d, bool): return 'TRUE' if d else 'FALSE'
    if isinstance(d, int): return str(d)
    if isinstance(d, float): return '"NaN"' if math.isnan(d) else '"%r"' % float(d)
    return '"%s"' % d
mods, sigs = [], []
for m in pkgutil.walk_packages(F.__path__, F.__name__ + '.'):
    if m.ispkg: continue
    mod = importlib.import_module(m.name)
    s = short(m.name)
    mods.append((s, m.name))
    for k, f in vars(mod).items():
        if inspect.isfunction(f) and f.__module__ == m.name and not k.startswith('_'):
            ps = ', '.join('<<"%s", %s>>' % (p.name, lit(p.default)) for p in inspect.signature(f).parameters.values())
            sigs.append((s, k, ps))
print('-------------------------------- MODULE Sigs --------------------------------')
print('''(* The public interface: every calculation function of the toolbox, its
   parameters in positional order and their published default values.
   "req" = required, "NaN" = optional, "None" = optional object. *)
EXTENDS TLC
''')
print('Modules == <<')
print(',\n'.join('  <<"%s", "%s">>' % x for x in mods)); print('>>\n')
cur = None
names = []
for s, k, ps in sigs:
    if s != cur:
        if cur: print('>>\n')
        print('Sig_%s == <<' % s); cur = s; first = True; names.append(s)
    else: print(',', end='')
    print('  <<"%s", << %s >> >>' % (k, ps))
print('>>\n')
print('SigTable == <<')
print(',\n'.join('  <<"%s", Sig_%s>>' % (n, n) for n in names)); print('>>')
print('=' * 77)
