"""property id -> check"""
from . import props_vm, props_rt
PROPS = {}
PROPS.update(props_vm.PROPS)
PROPS.update(props_rt.PROPS)
from . import props_cc, props_emit
PROPS.update(props_cc.PROPS)
PROPS.update(props_emit.PROPS)
