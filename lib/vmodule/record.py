"""Each call appends one line to the log named in the parameters."""

import datetime
import json

def plain(value):
    if isinstance(value, datetime.datetime):
        return value.isoformat()
    if isinstance(value, dict):
        return {k: plain(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if hasattr(value, 'item'):
        return value.item()
    if hasattr(value, '__dict__'):
        return plain(value.__dict__)
    return value

def write(log, parameters):
    with open(log, 'a') as stream:
        stream.write(json.dumps(plain(parameters)) + '\n')

def run(log, **parameters):
    write(log, parameters)

def inner(log, **parameters):
    return plain(dict(parameters, log=log))

def outer(daily):
    for parameters in daily:
        log = parameters.pop('log')
        write(log, parameters)

def hear(daily):
    heard(daily)

class Holder(object):
    """An object nested in the parameters."""

    def __init__(self, first=None, second=None, number=None):
        self.first = first
        self.second = second
        self.number = number

class RunRecord(object):
    """A class run module."""

    def __init__(self, log, time=None, index=None, inputs=None, output=None):
        self.log = log
        self.time = time
        self.index = index
        self.inputs = inputs
        self.output = output

    def run(self):
        write(self.log, dict(time=self.time, index=self.index, inputs=self.inputs, output=self.output))
