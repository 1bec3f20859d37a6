# -*- coding: utf-8 -*-
from overlap import fresh, together

DRIVERS = 'c01 c02 c03 c04 c05 c06 c07 c08 c09 c10 c12 c13 c14 c15 c16 c17 c18 c19 c20 c21 c22 c23 c24'.split()
# work on the same parts of the library
NEAR = [('c01', 'c03', 'c08'), ('c02', 'c03', 'c04', 'c06'), ('c05', 'c02'), ('c05', 'c05'),
        ('c16', 'c16'), ('c07', 'c08', 'c09', 'c10', 'c12'), ('c13', 'c03', 'c08', 'c12'),
        ('c14', 'c24', 'c15'), ('c15', 'c16', 'c24', 'c23'), ('c17', 'c18', 'c19', 'c20', 'c21'), ('c17', 'c23', 'c22'),
        ('c18', 'c23', 'c20'), ('c22', 'c08', 'c12'),
        ('c22', 'c22'), ('c22', 'c22', 'c18'), ('c12', 'c12'), ('c10', 'c10', 'c08')]
COMPOSERS = ('c17', 'c18', 'c19', 'c20', 'c21')


def gen(ctx):
    rng = ctx.rng
    schedules = list(ctx.behaviours())
    for k in range(ctx.n(48, 60)):
        how = rng.random()
        if how < .4:
            names = [rng.choice(DRIVERS if how < .3 else COMPOSERS)] * 2
        elif how < .8:
            near = rng.choice(NEAR)
            names = rng.sample(near, min(len(near), rng.choice((2, 2, 3))))
        else:
            names = rng.sample(DRIVERS, 3)
        if k < len(DRIVERS):
            names[0] = DRIVERS[(k + ctx.shard * 3) % len(DRIVERS)]
            if how < .4:
                names[1] = names[0]
        # messages are composed in many small steps
        limit = ctx.n(120, 250) if max(names) in COMPOSERS and min(names) in COMPOSERS else ctx.n(40, 90)
        if 'c04' in names and rng.random() < .3:
            limit *= 3
        fresh()
        together(ctx, [(n.upper(), __import__(n).gen) for n in names], rng.choice(schedules),
                 rng.choice((0, 0, 0, 1, 1, 2, 3, 7, 20, 60)), limit)
