SPECIFICATION Spec
INVARIANTS Neutral Print1
CONSTANT Kinds = {"adc", "sbb", "add3", "adcs", "sbbs", "mulh", "mulhu", "mulhsu", "div", "divu", "cross"}
