INIT Init
NEXT Next
CONSTANT Open = {}
