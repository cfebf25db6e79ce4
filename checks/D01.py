import store, storegen

def run(ctx):
    g = store.explore(ctx, storegen.single(), 'single') + store.explore(ctx, storegen.selfs(), 'selfs')
    ctx.note('explored single associations')
    store.replay(ctx, g, ['int', 'str', 'pair'])
    ctx.note('replayed')
    g = store.explore(ctx, storegen.chains() + storegen.pairs(), 'multi')
    store.sampled(g, ctx.rng, 0.06 if ctx.quick else 1)
    store.replay(ctx, g, ['int', 'pair', 'str'])
    ctx.note('replayed combinations')
    store.random_histories(ctx, {'schemas': 12, 'histories': 6, 'length': 40} if ctx.quick else
                           {'schemas': 150, 'histories': 12, 'length': 60})
