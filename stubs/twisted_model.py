# What the analysis takes the classes of Twisted and of the standard library that txstatsd builds on to do.
# It is read by the analyser as if it were part of the program; it is never executed.
import ConfigParser
import getopt
import sys

import verif_native
from twisted.python import usage


class Service(object):
    running = 0
    name = None
    parent = None

    def setName(self, name):
        self.name = name

    def setServiceParent(self, parent):
        if self.parent is not None:
            self.disownServiceParent()
        self.parent = parent
        parent.addService(self)

    def disownServiceParent(self):
        parent = self.parent
        self.parent = None
        return parent.removeService(self)

    def privilegedStartService(self):
        pass

    def startService(self):
        self.running = 1

    def stopService(self):
        self.running = 0


class MultiService(Service):

    def __init__(self):
        self.services = []
        self.parent = None

    def __iter__(self):
        return iter(self.services)

    def addService(self, service):
        self.services.append(service)
        if self.running:
            service.privilegedStartService()
            service.startService()

    def removeService(self, service):
        self.services.remove(service)
        if self.running:
            return service.stopService()

    def startService(self):
        Service.startService(self)
        for service in self.services:
            service.startService()

    def stopService(self):
        Service.stopService(self)
        services = list(self.services)
        services.reverse()
        for service in services:
            service.stopService()


class ListeningPort(object):

    def __init__(self, kind, port, handler):
        self.kind = kind
        self.port = port
        self.handler = handler
        self.listening = True

    def stopListening(self):
        self.listening = False

    loseConnection = stopListening


class UDPServer(Service):
    kind = "udp"
    listener = None

    def __init__(self, port, protocol, interface="", maxPacketSize=8192, reactor=None):
        self.port = port
        self.protocol = protocol
        self.interface = interface

    def startService(self):
        Service.startService(self)
        if self.listener is None:
            self.listener = ListeningPort(self.kind, self.port, self.protocol)

    def stopService(self):
        Service.stopService(self)
        if self.listener is not None:
            self.listener.stopListening()
            self.listener = None


class TCPServer(Service):
    kind = "tcp"
    listener = None

    def __init__(self, port, factory, backlog=50, interface="", reactor=None):
        self.port = port
        self.factory = factory
        self.interface = interface

    def startService(self):
        Service.startService(self)
        if self.listener is None:
            self.listener = ListeningPort(self.kind, self.port, self.factory)

    def stopService(self):
        Service.stopService(self)
        if self.listener is not None:
            self.listener.stopListening()
            self.listener = None


class LoopingCall(object):
    running = False
    clock = None
    interval = None
    began = 0

    def __init__(self, f, *args, **kw):
        self.f = f
        self.args = args

    def start(self, interval, now=True):
        if self.running:
            raise AssertionError("Tried to start an already running LoopingCall.")
        if interval < 0:
            raise ValueError("interval must be >= 0")
        self.running = True
        self.interval = interval
        self.now = now
        self.began = self.began + 1
        return Deferred()

    def stop(self):
        if not self.running:
            raise AssertionError("Tried to stop a LoopingCall that was not running.")
        self.running = False


class TimerService(Service):
    """Calls a function at once and then periodically, while it runs."""

    def __init__(self, step, callable, *args, **kwargs):
        self.step = step
        self.loop = LoopingCall(callable, *args)

    def startService(self):
        Service.startService(self)
        self.loop.start(self.step, now=True)

    def stopService(self):
        if self.loop.running:
            self.loop.stop()
        Service.stopService(self)


class Failure(object):

    def __init__(self, value=None):
        self.value = value

    def check(self, *kinds):
        return None

    def trap(self, *kinds):
        for kind in kinds:
            if isinstance(self.value, kind):
                return kind
        raise self.value

    def getErrorMessage(self):
        return str(self.value)

    def getTraceback(self):
        return str(self.value)


class AlreadyCalledError(Exception):
    pass


class Deferred(object):

    def __init__(self, canceller=None):
        self.called = False
        self.callbacks = []
        self.result = None
        self.paused = 0
        self.chained = []

    def addCallbacks(self, callback, errback=None, callbackArgs=None, callbackKeywords=None,
                     errbackArgs=None, errbackKeywords=None):
        self.callbacks.append((callback, callbackArgs or (), errback, errbackArgs or ()))
        if self.called:
            self.run_callbacks()
        return self

    def addCallback(self, callback, *args, **kw):
        self.callbacks.append((callback, args, None, ()))
        if self.called:
            self.run_callbacks()
        return self

    def addErrback(self, errback, *args, **kw):
        self.callbacks.append((None, (), errback, args))
        if self.called:
            self.run_callbacks()
        return self

    def addBoth(self, callback, *args, **kw):
        self.callbacks.append((callback, args, callback, args))
        if self.called:
            self.run_callbacks()
        return self

    def chainDeferred(self, other):
        return self.addCallbacks(other.callback, other.errback)

    def callback(self, result):
        if self.called:
            raise AlreadyCalledError()
        self.called = True
        self.result = result
        self.run_callbacks()

    def errback(self, fail=None):
        if self.called:
            raise AlreadyCalledError()
        self.called = True
        if not isinstance(fail, Failure):
            fail = Failure(fail)
        self.result = fail
        self.run_callbacks()

    def wait_for(self, result):
        self.result = result
        self.paused = self.paused - 1
        self.run_callbacks()

    def run_callbacks(self):
        while self.callbacks and not self.paused:
            callback, args, errback, eargs = self.callbacks.pop(0)
            if isinstance(self.result, Failure):
                f, extra = errback, eargs
            else:
                f, extra = callback, args
            if f is None:
                continue
            try:
                self.result = f(self.result, *extra)
            except Exception as e:
                self.result = Failure(e)
            if isinstance(self.result, Deferred):
                inner = self.result
                if inner.called and not inner.paused:
                    self.result = inner.result
                    inner.result = None
                else:
                    self.paused = self.paused + 1
                    inner.callbacks.append((self.wait_for, (), self.wait_for, ()))


def succeed(result):
    d = Deferred()
    d.callback(result)
    return d


def fail(result=None):
    d = Deferred()
    d.errback(result)
    return d


def execute(f, *args, **kw):
    return maybeDeferred(f, *args, **kw)


def maybeDeferred(f, *args, **kw):
    try:
        result = f(*args)
    except Exception as e:
        return fail(Failure(e))
    if isinstance(result, Deferred):
        return result
    if isinstance(result, Failure):
        return fail(result)
    return succeed(result)


class BaseProtocol(object):
    connected = 0
    transport = None

    def makeConnection(self, transport):
        self.connected = 1
        self.transport = transport
        self.connectionMade()

    def connectionMade(self):
        pass


class Protocol(BaseProtocol):
    factory = None

    def connectionLost(self, reason=None):
        pass

    def dataReceived(self, data):
        pass


class DatagramProtocol(object):
    transport = None

    def startProtocol(self):
        pass

    def stopProtocol(self):
        pass


class ClientFactory(object):
    protocol = None
    numPorts = 0
    noisy = True

    def startedConnecting(self, connector):
        pass

    def clientConnectionFailed(self, connector, reason):
        pass

    def clientConnectionLost(self, connector, reason):
        pass


class ReconnectingClientFactory(ClientFactory):
    initialDelay = 1.0
    delay = initialDelay
    retries = 0
    continueTrying = 1
    connector = None
    clock = None
    waiting = False

    def clientConnectionFailed(self, connector, reason):
        if self.continueTrying:
            self.connector = connector
            self.retry()

    def clientConnectionLost(self, connector, unused_reason):
        if self.continueTrying:
            self.connector = connector
            self.retry()

    def retry(self, connector=None):
        if not self.continueTrying:
            return
        self.retries = self.retries + 1
        self.delay = self.delay * 2.7
        self.waiting = True

    def stopTrying(self):
        self.waiting = False
        self.continueTrying = 0
        if self.connector:
            try:
                self.connector.stopConnecting()
            except NotConnectingError:
                pass

    def resetDelay(self):
        self.delay = self.initialDelay
        self.retries = 0
        self.waiting = False
        self.continueTrying = 1


class NotConnectingError(Exception):
    pass


class StreamTransport(object):
    disconnecting = False

    def __init__(self, connector):
        self.connector = connector

    def registerProducer(self, producer, streaming):
        pass

    def unregisterProducer(self):
        pass

    def write(self, data):
        pass

    def loseConnection(self):
        if not self.disconnecting:
            self.disconnecting = True
            if self.connector.transport is self:
                self.connector.state = "disconnected"

    abortConnection = loseConnection


class Connector(object):
    """An attempt to connect, and the connection it leads to."""

    def __init__(self, host, port, factory):
        self.host = host
        self.port = port
        self.factory = factory
        self.transport = None
        self.state = "connecting"

    def disconnect(self):
        if self.state == "connecting":
            self.stopConnecting()
        elif self.state == "connected":
            self.transport.loseConnection()

    def stopConnecting(self):
        if self.state != "connecting":
            raise NotConnectingError()
        self.state = "disconnected"
        self.factory.clientConnectionFailed(self, None)

    # what the network does
    def established(self):
        if self.state == "connecting":
            protocol = self.factory.buildProtocol(None)
            self.transport = StreamTransport(self)
            self.state = "connected"
            if protocol is not None:
                protocol.makeConnection(self.transport)

    def failed(self):
        if self.state == "connecting":
            self.state = "disconnected"
            self.factory.clientConnectionFailed(self, None)

    def lost(self):
        if self.state == "connected":
            self.state = "disconnected"
            self.transport.disconnecting = True
            self.factory.clientConnectionLost(self, None)

    def retry(self):
        if self.factory.waiting:
            self.factory.waiting = False
            self.state = "connecting"


class Thread(object):
    daemon = False
    alive = False

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None):
        self.target = target

    def setDaemon(self, daemon):
        self.daemon = daemon

    def start(self):
        if self.alive:
            raise RuntimeError("threads can only be started once")
        self.alive = True

    def isAlive(self):
        return self.alive

    def join(self, timeout=None):
        pass


class Resource(object):
    isLeaf = 0
    server = None

    def __init__(self):
        self.children = {}

    def putChild(self, path, child):
        self.children[path] = child
        child.server = self.server

    def getChild(self, path, request):
        return NoResource("No such child resource.")

    def getChildWithDefault(self, path, request):
        if path in self.children:
            return self.children[path]
        return self.getChild(path, request)

    def render(self, request):
        return self.render_GET(request)


class ErrorPage(Resource):

    def __init__(self, status, brief, detail):
        Resource.__init__(self)
        self.code = status
        self.brief = brief
        self.detail = detail

    def render_GET(self, request):
        request.setResponseCode(self.code)
        return self.brief

    def getChild(self, chnam, request):
        return self


class NoResource(ErrorPage):

    def __init__(self, message="Sorry. No luck finding that resource."):
        ErrorPage.__init__(self, 404, "No Such Resource", message)


class ForbiddenResource(ErrorPage):

    def __init__(self, message="Sorry, resource is forbidden."):
        ErrorPage.__init__(self, 403, "Forbidden Resource", message)


class Site(object):

    def __init__(self, resource, logPath=None, timeout=43200):
        self.resource = resource


class FifoQueue(object):

    def __init__(self, maxsize=0):
        self.waiting = []

    def put(self, item, block=True, timeout=None):
        self.waiting.append(item)

    def put_nowait(self, item):
        self.waiting.append(item)

    def get_nowait(self):
        if not self.waiting:
            raise QueueEmpty()
        return self.waiting.pop(0)

    def get(self, block=True, timeout=None):
        if block and timeout is None:
            return self.wait_for_an_item()      # left open: it may block for ever
        return self.get_nowait()

    def empty(self):
        return not self.waiting

    def qsize(self):
        return len(self.waiting)


class QueueEmpty(Exception):
    pass


class RingNode(object):
    """A client of a ring that records what it is given."""

    def __init__(self, name):
        self.name = name
        self.given = []

    def __str__(self):
        return self.name

    def write(self, data):
        self.given.append(data)

    def connect(self):
        pass

    def disconnect(self):
        pass


class CoerceParameter(object):

    def __init__(self, options, coerce):
        self.options = options
        self.coerce = coerce

    def dispatch(self, parameterName, value):
        if value is None:
            raise usage.UsageError("Parameter '%s' requires an argument." % (parameterName,))
        try:
            value = self.coerce(value)
        except ValueError as e:
            raise usage.UsageError("Parameter type enforcement failed: %s" % (e,))
        self.options.opts[parameterName] = value


def portCoerce(value):
    value = int(value)
    if value < 0 or value > 65535:
        raise ValueError("Port number not in range: %s" % (value,))
    return value


def option_handler(method):
    return lambda name, value=None: method(value)


class Options(object):
    subCommand = None
    defaultSubCommand = None
    parent = None

    def __init__(self):
        self.kept = {}
        self.opts = self
        self.defaults = {}
        self.longOpt = []
        self.shortOpt = ''
        self.docs = {}
        self.synonyms = {}
        self._dispatch = {}
        for long, short in verif_native.flags(self):
            self[long] = 0
            self.longOpt.append(long)
            self.synonyms[long] = long
            self._dispatch[long] = self._generic_flag
            if short:
                self.shortOpt = self.shortOpt + short
                self.synonyms[short] = long
        for long, short, default, kind in verif_native.parameters(self):
            self[long] = default
            self.defaults[long] = default
            self.longOpt.append(long + '=')
            self.synonyms[long] = long
            self._dispatch[long] = CoerceParameter(self, kind)
            if short:
                self.shortOpt = self.shortOpt + short + ':'
                self.synonyms[short] = long
        for name, longest, method in verif_native.handlers(self):
            self._dispatch[name] = option_handler(method)
            self.synonyms[name] = longest
            if len(name) == 1:
                self.shortOpt = self.shortOpt + name + ':'
            else:
                self.longOpt.append(name + '=')

    def _generic_flag(self, flagName, value=None):
        self.opts[flagName] = 1

    def parseOptions(self, options=None):
        if options is None:
            options = sys.argv[1:]
        try:
            opts, args = getopt.getopt(options, self.shortOpt, self.longOpt)
        except getopt.error as e:
            raise usage.UsageError(str(e))
        for opt, arg in opts:
            if opt[1] == '-':
                opt = opt[2:]
            else:
                opt = opt[1:]
            if opt not in self.synonyms:
                raise usage.UsageError("No such option '%s'" % (opt,))
            opt = self.synonyms[opt]
            if isinstance(self._dispatch[opt], CoerceParameter):
                self._dispatch[opt].dispatch(opt, arg)
            else:
                self._dispatch[opt](opt, arg)
        self.parseArgs(*args)
        self.postOptions()

    def parseArgs(self):
        pass

    def postOptions(self):
        pass

    def __getitem__(self, name):
        return self.kept[name]

    def __setitem__(self, name, value):
        self.kept[name] = value

    def __delitem__(self, name):
        del self.kept[name]

    def __contains__(self, name):
        return name in self.kept

    def __iter__(self):
        return iter(self.kept)

    def __len__(self):
        return len(self.kept)

    def has_key(self, name):
        return name in self.kept

    def get(self, name, default=None):
        return self.kept.get(name, default)

    def setdefault(self, name, default=None):
        return self.kept.setdefault(name, default)

    def pop(self, name, *default):
        return self.kept.pop(name, *default)

    def update(self, other):
        for name in other:
            self[name] = other[name]

    def keys(self):
        return self.kept.keys()

    def values(self):
        return self.kept.values()

    def items(self):
        return self.kept.items()

    def iteritems(self):
        return iter(self.kept.items())

    def copy(self):
        return dict(self.kept)


class RawConfigParser(object):
    """A file's sections are given by verif_native.config, as the parser gives them."""
    interpolates = False

    def __init__(self, defaults=None):
        self.content = {}

    def read(self, paths):
        if isinstance(paths, str):
            paths = [paths]
        found = []
        for path in paths:
            sections = verif_native.config(path)
            if sections is not None:
                found.append(path)
                for name, pairs in sections:
                    self.content.setdefault(name, {})
                    for key, value in pairs:
                        self.content[name][key] = value
        return found

    def readfp(self, fp, filename=None):
        self.read(fp.name)

    def sections(self):
        return self.content.keys()

    def has_section(self, section):
        return section in self.content

    def given(self, section):
        if section not in self.content:
            raise ConfigParser.NoSectionError(section)
        return self.content[section]

    def items(self, section):
        return [(k, self.made(v)) for k, v in self.given(section).items()]

    def options(self, section):
        return self.given(section).keys()

    def has_option(self, section, option):
        return section in self.content and option in self.content[section]

    def get(self, section, option):
        d = self.given(section)
        if option not in d:
            raise ConfigParser.NoOptionError(option, section)
        return self.made(d[option])

    def getint(self, section, option):
        return int(self.get(section, option))

    def made(self, value):
        if self.interpolates:
            return verif_native.interpolated(value)
        return value


class InterpolatingConfigParser(RawConfigParser):
    interpolates = True
