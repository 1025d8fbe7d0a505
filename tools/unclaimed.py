for _i in []:
    TODO[_i] = "the check is not built yet"
