"""Which machinery decides which property."""
from . import core
from .props_tensor import tensor
from .props_layers import layer
from .props_optim import optimizer
from .props_model import control
from .props_rng import stream
from .props_nets import network
from .props_par import parallel
from .props_data import mnist, linear, art

PROPS = {p: [tensor] for p in ("P01", "P02", "P03", "P04", "P05", "P06", "P07")}
PROPS.update({p: [layer] for p in ("P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16")})
PROPS.update({p: [optimizer] for p in ("P17", "P18", "P19", "P20")})
PROPS["P21"] = [control]
PROPS.update({p: [network] for p in ("P22", "P23")})
PROPS["P28"] = [parallel]
PROPS.update({"P24": [stream], "P25": [mnist], "P26": [mnist], "P27": [linear], "P29": [tensor, control, art]})


def setup():
    core.java_classes()
