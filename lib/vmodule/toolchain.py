def versionlist():
    return ['vmodule-R000001']
