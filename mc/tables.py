"""Own reader of the shipped tables (fixed file names in misfit/lib)."""
import os


def path(name):
    import misfit
    return os.path.join(os.path.dirname(misfit.__file__), 'lib', name)


def rows(name):
    out = []
    for line in open(path(name)):
        line = line.split('#')[0].split()
        if line:
            out.append(line)
    return out


def groups():
    return {r[0]: r[1].split(',') for r in rows('line_names_cat.dat')}


def lines():
    return {r[0]: (float(r[1]), float(r[2])) for r in rows('line_wavelengths_ratios.dat')}


def ranges(name):
    return {r[0]: (float(r[1]), float(r[2])) for r in rows(name)}


def group(name):
    """[(restwave, ratio), ...] of a line group."""
    l = lines()
    return [l[n] for n in groups()[name]]
