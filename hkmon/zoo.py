"""Small instances of every public Haiku layer, for use as realistic workloads.

entry(mon) -> dict(name=..., fn=function to transform, args=tuple of arrays,
                   stateful=bool, rng=bool)
"""
import haiku as hk
import jax
import jax.numpy as jnp
import numpy as np


def _x(mon, *shape):
  return mon.normal(shape)


def linear(mon):
  n, b = mon.randint(1, 4), mon.chance(0.5)
  return lambda x: hk.Linear(n, with_bias=b)(x), (_x(mon, 2, 3),)


def bias(mon):
  dims = mon.pick(None, [-1], [1], [1, 2], [])
  return lambda x: hk.Bias(bias_dims=dims)(x), (_x(mon, 2, 3, 4),)


def mlp(mon):
  sizes = [mon.randint(1, 4) for _ in range(mon.randint(1, 3))]
  return lambda x: hk.nets.MLP(sizes)(x), (_x(mon, 2, 3),)


def mlp_dropout(mon):
  return lambda x: hk.nets.MLP([4, 3, 2])(x, 0.5, hk.next_rng_key()), (_x(mon, 2, 3),)


def dropout(mon):
  return lambda x: hk.dropout(hk.next_rng_key(), 0.4, x), (_x(mon, 3, 3),)


def sequential(mon):
  return (lambda x: hk.Sequential([hk.Linear(3), jax.nn.relu, hk.Linear(2)])(x),
          (_x(mon, 2, 3),))


def conv(mon):
  d = mon.randint(1, 3)
  cls = [hk.Conv1D, hk.Conv2D, hk.Conv3D][d - 1]
  return (lambda x: cls(2, 2, stride=mon_stride)(x), (_x(mon, 1, *([4] * d), 2),)
          ) if (mon_stride := mon.randint(1, 2)) else None


def conv_t(mon):
  d = mon.randint(1, 3)
  cls = [hk.Conv1DTranspose, hk.Conv2DTranspose, hk.Conv3DTranspose][d - 1]
  return lambda x: cls(2, 2, stride=2)(x), (_x(mon, 1, *([3] * d), 2),)


def depthwise(mon):
  return lambda x: hk.DepthwiseConv2D(2, 2)(x), (_x(mon, 1, 4, 4, 2),)


def separable(mon):
  return lambda x: hk.SeparableDepthwiseConv2D(2, 2)(x), (_x(mon, 1, 4, 4, 2),)


def pool(mon):
  f = mon.pick(hk.max_pool, hk.avg_pool)
  return lambda x: f(x, (1, 2, 2, 1), (1, 2, 2, 1), 'SAME'), (_x(mon, 2, 4, 4, 2),)


def batch_norm(mon):
  cs = mon.chance(0.5)
  training = mon.chance(0.5)
  return (lambda x: hk.BatchNorm(cs, cs, 0.9)(x, is_training=training or hk.running_init()),
          (_x(mon, 4, 3),))


def layer_norm(mon):
  return lambda x: hk.LayerNorm(-1, True, True)(x), (_x(mon, 2, 3, 4),)


def instance_norm(mon):
  return lambda x: hk.InstanceNorm(True, True)(x), (_x(mon, 2, 3, 3, 4),)


def group_norm(mon):
  return lambda x: hk.GroupNorm(2)(x), (_x(mon, 2, 3, 3, 4),)


def embed(mon):
  return lambda i: hk.Embed(5, 3)(i), (mon.np.integers(0, 5, (4,)).astype(np.int32),)


def attention(mon):
  return (lambda q, k: hk.MultiHeadAttention(2, 3, w_init_scale=1.)(q, k, k),
          (_x(mon, 2, 3, 4), _x(mon, 2, 5, 4)))


def rnn(mon):
  cls = mon.pick(hk.LSTM, hk.GRU, hk.VanillaRNN)
  dyn = mon.chance(0.5)
  def f(xs):
    core = cls(3)
    unroll = hk.dynamic_unroll if dyn else hk.static_unroll
    return unroll(core, xs, core.initial_state(2))[0]
  return f, (_x(mon, 4, 2, 3),)


def conv_lstm(mon):
  def f(xs):
    core = hk.Conv1DLSTM(input_shape=[4], output_channels=2, kernel_shape=2)
    return hk.dynamic_unroll(core, xs, core.initial_state(1))[0]
  return f, (_x(mon, 2, 1, 4, 2),)


def deep_rnn(mon):
  def f(xs):
    core = hk.deep_rnn_with_skip_connections([hk.LSTM(2), hk.GRU(2)])
    return hk.dynamic_unroll(core, xs, core.initial_state(2))[0]
  return f, (_x(mon, 3, 2, 3),)


def ema(mon):
  return lambda x: hk.ExponentialMovingAverage(0.9)(x), (_x(mon, 3),)


def ema_tree(mon):
  def f(x):
    w = {'linear': {'w': x, 'b': x * 2}}
    return hk.EMAParamsTree(0.9)(w)['linear']['w']
  return f, (_x(mon, 3),)


def spectral(mon):
  return lambda x: hk.SpectralNorm()(x), (_x(mon, 3, 2),)


def vq(mon):
  return (lambda x: hk.nets.VectorQuantizer(2, 4, 0.25)(x, is_training=True)['quantize'],
          (_x(mon, 3, 2),))


def vq_ema(mon):
  return (lambda x: hk.nets.VectorQuantizerEMA(2, 4, 0.25, 0.9)(x, is_training=True)['quantize'],
          (_x(mon, 3, 2),))


def batch_apply(mon):
  return lambda x: hk.BatchApply(hk.Linear(3))(x), (_x(mon, 2, 3, 4),)


def reshape(mon):
  return (lambda x: hk.Reshape((-1, 2), preserve_dims=1)(hk.Flatten(preserve_dims=1)(x)),
          (_x(mon, 2, 3, 4),))


def resnet_block(mon):
  from haiku._src.nets.resnet import BlockV1
  return (lambda x: BlockV1(4, 2, True, dict(create_scale=True, create_offset=True, decay_rate=0.9),
                            mon_b)(x, True, False),
          (_x(mon, 2, 4, 4, 2),)) if (mon_b := mon.chance(0.5)) is not None else None


LIGHT = [linear, bias, mlp, mlp_dropout, dropout, sequential, conv, conv_t, depthwise, separable,
         pool, batch_norm, layer_norm, instance_norm, group_norm, embed, attention, rnn, ema,
         ema_tree, spectral, vq, vq_ema, batch_apply, reshape]
HEAVY = [conv_lstm, deep_rnn, resnet_block]


def entry(mon, builders=None):
  b = mon.pick(builders or LIGHT)
  fn, args = b(mon)
  return dict(name=b.__name__, fn=fn, args=args)
