"""Sizes from real use: ten- to forty-dimensional states, series of dozens to hundreds of steps, many iterations, many rows and
samples.  Nearly all inputs are fixed in the first round (`start`); the rounds after it fix others, at other values, and fewer."""

PATS = ('chain', 'arrow')
SIZES = dict(
    C01=[('from_moments', [dict(d=10, first='precision', start=.98), dict(d=16, first='shift', pat='chain', start=.95)], {}),
         ('from_natural', [dict(d=10, first='mean', start=.98), dict(d=40, first='cov', pat='chain', start=.99)], {})],
    C02=[('operators', [dict(d=40, ma='natural', mb='natural', start=.5), dict(d=10, ma='moment', mb='natural', start=.99), dict(d=8, ma='moment', mb='moment', start=.98)], {}),
         ('moments_of_product', [dict(d=8, start=.98)], {})],
    C03=[('derived', [dict(d=10, mode='natural', op=o, start=.9) for o in ('copy', 'mul')] + [dict(d=8, mode='moment', op=o, start=.98) for o in ('copy', 'pow', 'div')], {})],
    C04=[('vague', [dict(d=12, start=.5)], {})],
    C05=[('one_point', [dict(d=10, mode='moment', row=False, start=.98), dict(d=12, mode='natural', row=True, pat='chain', start=.95)], {}),
         ('sequences', [dict(d=1, T=127, start=.96), dict(d=5, T=30, start=.98)], {})],
    C06=[('sigma_point_rule', [dict(n=10, k=1, par=(1, 2, 1), start=.98), dict(n=40, k=1, par=(1, 2, 1), start=.995)], {}),
         ('affine', [dict(n=10, k=10, par='sym', start=.96), dict(n=40, k=2, par='sym', start=.99)], {})],
    C07=[('linearisation', [dict(n=40, k=3, style='batch', start=.9), dict(n=10, k=40, style='vec', start=.9)], {})],
    C08=[('moments', [dict(n=1, k=1, N=150, start=.98)], {}), ('sampling', [dict(d=1, N=100, start=.9)], {})],
    C09=[('time_update', [dict(d=12, n=12, mode='moment', start=.98), dict(d=10, n=10, mode='natural', start=.98)], {})],
    C10=[('measurement_update', [dict(d=10, k=10, mode='moment', start=.98), dict(d=12, k=8, mode='natural', start=.995), dict(d=40, k=2, mode='moment', start=.995)], {})],
    C11=[('backward', [dict(d=10, power='sym', given=False, mode='moment', start=.99), dict(d=10, power=1, given=True, mode='moment', start=.99)], {})],
    C12=[('predict', [dict(d=12, k=12, two=True, start=.96)], {}), ('correct', [dict(d=12, k=12, two=True, start=.99)], {}), ('smooth', [dict(d=10, two=True, start=.99)], {})],
    C13=[('recursion', [dict(d=1, T=101, pos=0, start=.99), dict(d=10, T=3, pos=0, start=.99)], {}), ('exact', [dict(d=1, k=1, T=20, tr='t', varying=True, given=True, start=.99)], {})],
    C14=[('gauss_newton', [dict(d=1, k=1, T=1, it=20, style='batch', start=.95), dict(d=1, k=1, T=1, it=40, style='vec', start=.99), dict(d=1, k=1, T=11, it=2, style='vec', start=.98), dict(d=5, k=4, T=2, it=3, style='batch', start=.98), dict(d=1, k=1, T=24, it=2, style='batch', start=.99),
                           dict(d=8, k=6, T=1, it=2, style='vec', start=.99), dict(d=10, k=1, T=2, it=3, style='batch', start=.99)], {}),
         ('affine', [dict(d=1, k=1, T=20, it=2, rows=False, start=.98), dict(d=1, k=1, T=1, it=50, rows=False, start=.5)], {})],
    C15=[('passes', [dict(d=1, k=1, T=12, it=2, style='batch', start=.98), dict(d=1, k=1, T=2, it=12, style='batch', start=.95), dict(d=1, k=1, T=24, it=2, style='batch', start=.99), dict(d=5, k=3, T=2, it=2, style='vec', start=.99),
                     dict(d=8, k=2, T=2, it=3, style='batch', start=.99)], {}), ('affine', [dict(d=1, k=1, T=16, it=2, rows=False, start=.98), dict(d=6, k=2, T=2, it=2, rows=False, start=.99)], {}),
         ('repeatable', [dict(d=5, k=3, T=3, it=2, start=.99)], {})],
    C16=[('update', [dict(kind=k, N=53, i=40, d=1, mode='natural', how='sym', start=.99) for k in ('fwd', 'meas', 'back')] +
          [dict(kind='meas', N=3, i=1, d=8, mode='natural', how='sym', start=.98), dict(kind='back', N=3, i=1, d=10, mode='moment', how='sym', start=.99), dict(kind='fwd', N=3, i=1, d=12, mode='natural', how='sym', start=.99),
                      dict(kind='fwd', N=130, i=128, d=1, mode='natural', how='sym', start=.99)], {})],
    C17=[('projection_raises', [dict(kind=k, N=53, i=30, d=1, mode='natural', start=.98) for k in ('fwd', 'meas', 'back')], {}), ('any_covariance', [dict(kind='back', N=40, i=30, d=1, start=.98)], {})],
    C18=[('same', [dict(d=1, k=1, T=50, two=True, sweep=True, start=.98), dict(d=5, k=3, T=2, two=True, sweep=True, start=.99), dict(d=8, k=2, T=2, two=False, sweep=True, start=.99)], {})],
    C19=[('exact', [dict(d=1, k=1, T=16, tr='t', init='unit', power='sym', start=.97), dict(d=1, k=1, T=40, tr='u', init='unit', power='sym', start=.99), dict(d=5, k=3, T=2, tr='u', init='unit', power='sym', start=.98)], {}), ('fixed_point', [dict(d=1, T=13, tr='u', start=.98), dict(d=1, T=20, tr='u', start=.99), dict(d=4, T=2, tr='u', start=.98)], {})],
    C20=[('build', [dict(N=127, d=2)], {}), ('wiring', [dict(N=127, d=2, k=1, farg=False, how=1), dict(N=109, d=1, k=1, farg=True, how=0), dict(N=3, d=1, k=12, farg=False, how=0, start=.9), dict(N=2, d=12, k=10, farg=False, how=0, start=.9), dict(N=2, d=2, k=40, farg=True, how=1, start=.9)], {}), ('two_systems', [dict(N=100)], {})],
    C21=[('trajectory', [dict(d=1, k=1, N=25, x0='given', kind='model', mean=True, start=.98), dict(d=8, k=8, N=2, x0='drawn', kind='model', mean=False, start=.98), dict(d=1, k=1, N=40, x0='drawn', kind='sub', mean=False, start=.98)], {}),
         ('gaussian_noise', [dict(d=1, size=100)], {}), ('structured_noise', [dict(d=40, pattern='diagonal')], {})],
    C22=[('functions', [dict(model=m, n=12, start=.8) for m in ('cv', 'ct')], {})],
    C24=[('many_rows', [dict(kind=k, B=83) for k in ('cv', 'ct', 'ungm', 'l96')] + [dict(kind='ungm', B=1103), dict(kind='ungm', B=10007), dict(kind='cv', B=2503), dict(kind='l96', B=1501), dict(kind='ct', B=1201)], {})],
    C25=[('recording', [dict(k=61, N=1, d=1, table=None, first=0, start=.96), dict(k=2, N=59, d=1, table=None, first=0, start=.96)], {})],
    C26=[('conversion', [dict(d=10, to='natural', deg=False, start=.98), dict(d=10, to='moment', deg=False, start=.98)], {}),
         ('updates', [dict(op='meas', d=10, k=8, power='any', start=.99), dict(op='back', d=8, k=8, power='any', start=.995)], {}), ('unscented', [dict(n=10, k=10, start=.98)], {})],
    C27=[('node_plot', [dict(N=127, d=1, form='m', ax=True, truth=True, start=.8)], {}), ('state_plot', [dict(N=101, d=1, start=.8)], {}),
         ('ensemble_plot', [dict(S=3, T=101, ax=True, start=.8), dict(S=109, T=2, ax=True, start=.9)], {})],
    C28=[('round_trip', [dict(N=n, d=(1, 'v'), k=(1, 'v'), kind='list') for n in (101, 131, 199, 1009)] + [dict(N=151, d=(1, 'r'), k=(1, 'r'), kind='list'), dict(N=60, d=(5, 'r'), k=(3, 'r'), kind='generator'), dict(N=5, d=(40, 'v'), k=(40, 'v'), kind='list')], {}),
         ('again', [dict(N=61, M=71, same=True)], {})],
    C30=[('recording', [dict(k=20, N=1, at=0, start=.99)], {}), ('metric', [dict(N=30, who=w, start=.96) for w in ('EP', 'IEKS')] + [dict(N=53, who=w, start=.99) for w in ('EP', 'IEKS')], {})],
    C31=[('square_root', [dict(d=10, form='m', start=.96)], {}), ('jittered_root', [dict(d=10, jitter='any', sym=False, start=.96), dict(d=10, jitter=None, sym=True, start=.96)], {}),
         ('regularised_solve', [dict(d=12, k=0, jitter=None, sym=True, how='pos', start=.99)], {}), ('validation', [dict(d=10, start=.96)], {})],
    C32=[('same', [dict(d=10, a='m', b='n', start=.96)], {}), ('different', [dict(d=10, where='mean9', start=.9)], {}), ('close', [dict(d=12, start=.96)], {})],
)

# scenario functions that take no arrays from the harness, or none of integers in that variant, or for which integers do not fit
REAL_ONLY = dict(
    C01=('from_moments:same', 'from_natural:same', 'scaled_information:same', 'constructors:same',),
    C02=('extreme_powers:same',),
    C04=('constants', 'improper_precision:int1', 'vague:same', 'improper_precision:same', 'improper_covariance:same',),
    C06=('sigma_point_rule:same', 'defaults:same',),
    C07=('differences:int0', 'linearisation:same', 'affine:same', 'polynomial:same',),
    C08=('default_number', 'sampling:same', 'moments:same',),
    C18=('order',),
    C20=('build:same',),
    C21=('gaussian_noise:int1', 'wrong_dimensions:int0', 'structured_noise', 'wrong_dimensions:same',),
    C22=('functions:int0', 'derivatives:int0', 'derivatives:int1', 'noises', 'two_systems:int0', 'functions:same', 'derivatives:same',
         'two_systems:same',),
    C23=('growth:int0', 'growth_derivative:int0', 'growth_model', 'lorenz_step:int0', 'lorenz_large:int0', 'lorenz_derivative:int0',
         'lorenz_model:int0', 'lorenz_defaults:int0', 'lorenz_file:int0', 'lorenz_initial', 'growth:same', 'growth_derivative:same',
         'lorenz_large:same', 'lorenz_derivative:same', 'lorenz_model:same', 'lorenz_defaults:same', 'lorenz_file:same',),
    C24=('batches:int0', 'outputs_are_new:int0', 'many_rows', 'batches:same', 'outputs_are_new:same',),
    C25=('columns',),
    C26=('product:int0', 'conversion:same', 'unscented:same', 'weights:same', 'monte_carlo_and_taylor:same',),
    C27=('ensemble_plot:int1', 'node_plot:int1', 'state_plot:int1', 'ensemble_plot:same',),
    C28=('arrays:int0', 'arrays:same',),
    C29=('*',),
    C31=('jittered_root:int0', 'regularised_solve:int0', 'square_root:same', 'jittered_root:same', 'regularised_solve:same',
         'validation:same',),
    C32=('same:same', 'different:same', 'close:same',),
    C33=('*',),
)
