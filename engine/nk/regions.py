"""Growable storage of the machine: array field -> how far it extends."""
COUNT = {("NKVM", "externalFunctionTable"): ("NKVM", "externalFunctionCount"),
         ("NKVM", "functionTable"): ("NKVM", "functionCount"),
         ("NKVM", "globalVariables"): ("NKVM", "globalVariableCount"),
         ("NKVM", "externalTypes"): ("NKVM", "externalTypeCount"),
         ("NKVM", "sourceFileList"): ("NKVM", "sourceFileCount"),
         ("NKVM", "positionMarkerList"): ("NKVM", "positionMarkerCount"),
         ("NKVMTable", "u"): ("NKVMTable", "capacity"),
         ("NKVMExternalFunction", "argTypes"): ("NKVMExternalFunction", "argumentCount"),
         ("NKVMExternalFunction", "argExternalTypes"): ("NKVMExternalFunction", "argumentCount")}
MASK = {("NKVM", "instructions"): ("NKVM", "instructionAddressMask"),
        ("NKVM", "staticSpace"): ("NKVM", "staticAddressMask"),
        ("NKVMStack", "values"): ("NKVMStack", "indexMask")}
CAP = {("NKVMStack", "values"): ("NKVMStack", "capacity")}
