package field

func feMul(v, x, y *Element) { feMulGeneric(v, x, y) }
