"""A stand-in for the parts of PyQt5 teleprox uses: signals with queued delivery to
the receiving thread's event loop, QThread, QApplication.  Deterministic."""
import types
from collections import deque

from .kernel import MS, HarnessError

_VALUE_TYPES = {
    'PyQt5.QtCore': ['QPoint', 'QSize', 'QRect', 'QLine', 'QLineF', 'QPointF', 'QSizeF', 'QRectF', 'QByteArray',
                     'QVariant', 'QUrl', 'QDateTime'],
    'PyQt5.QtGui': ['QMatrix4x4', 'QMatrix3x3', 'QMatrix2x2', 'QTransform', 'QVector3D', 'QVector4D',
                    'QQuaternion', 'QColor', 'QImage', 'QPixmap', 'QFont', 'QPen', 'QBrush'],
    'PyQt5.QtWidgets': ['QGridLayout', 'QTextBrowser', 'QLabel', 'QPushButton', 'QMainWindow', 'QVBoxLayout'],
}


class QtState:
    def __init__(self, env):
        self.env = env
        self.proc = env.proc
        self.k = env.k
        self.queues = {}        # task ident -> deque of (fn, args)
        self.waiters = {}
        self.app = None
        self.app_thread = None
        self.quit_flag = False
        self.looping = 0

    def me(self):
        return self.k.current.ident

    def post(self, ident, fn, args):
        self.queues.setdefault(ident, deque()).append((fn, args))
        for t in list(self.waiters.get(ident, ())):
            self.k.unpark(t)

    def call_slot(self, fn, args):
        try:
            fn(*args)
        except HarnessError:
            raise
        except BaseException as e:
            sysm = self.env.sys
            if sysm.excepthook is sysm.__excepthook__:
                # PyQt5 aborts the process on an unhandled exception in a slot
                self.env.report_uncaught(e)
                self.k.record('qt_abort', pid=self.proc.pid)
                self.proc.die(-6, killed=True)
            self.env.report_uncaught(e)

    def process_events(self, ident):
        q = self.queues.get(ident)
        n = 0
        if q:
            for _ in range(len(q)):
                if not q:
                    break
                fn, args = q.popleft()
                self.k.point('qt.event')
                self.call_slot(fn, args)
                n += 1
        return n

    def exec_loop(self):
        ident = self.me()
        k = self.k
        self.quit_flag = False
        self.looping += 1
        t = k.current
        try:
            while not self.quit_flag:
                if self.process_events(ident):
                    continue
                k.point('qt.exec')
                if self.quit_flag or self.queues.get(ident):
                    continue
                self.waiters.setdefault(ident, []).append(t)
                k.park(None, on='qt event loop')
                self.waiters[ident].remove(t)
        finally:
            self.looping -= 1
        return 0

    def quit(self):
        if self.looping:
            self.quit_flag = True
            for t in list(self.waiters.get(self.app_thread, ())):
                self.k.unpark(t)


def make(env, name):
    st = env.proc.__dict__.get('qt_state')
    if st is None:
        st = env.proc.qt_state = QtState(env)
        st.mods = build(env, st)
    return st.mods[name]


def build(env, st):
    k = env.k
    core = types.ModuleType('PyQt5.QtCore')
    gui = types.ModuleType('PyQt5.QtGui')
    widgets = types.ModuleType('PyQt5.QtWidgets')
    root = types.ModuleType('PyQt5')
    root.__path__ = []

    class QObject:
        def __init__(self, parent=None):
            self.__dict__['_qt_thread'] = st.me()

        def deleteLater(self):
            pass

        def thread(self):
            return self._qt_thread

        def moveToThread(self, t):
            self._qt_thread = getattr(t, '_ident', t)

    class BoundSignal:
        def __init__(self):
            self.slots = []

        def connect(self, slot, type=0, **kw):
            if isinstance(slot, BoundSignal):
                slot = slot.emit
            owner = getattr(slot, '__self__', None)
            ident = owner._qt_thread if isinstance(owner, QObject) and '_qt_thread' in owner.__dict__ else st.me()
            if type & 0x80 and any(x[0] == slot for x in self.slots):
                raise TypeError('connection is not unique')
            self.slots.append((slot, ident, type & 0x7f))

        def disconnect(self, slot=None):
            if slot is None:
                self.slots = []
            else:
                n = len(self.slots)
                self.slots = [s for s in self.slots if s[0] != slot]
                if len(self.slots) == n:
                    raise TypeError('disconnect() failed')

        def emit(self, *args):
            k.point('qt.emit')
            me = st.me()
            for slot, ident, typ in list(self.slots):
                if typ == 1 or (ident == me and typ in (0, None)):
                    st.call_slot(slot, args)
                elif typ == 3:
                    t, done = k.current, []

                    def run(slot=slot, args=args, t=t, done=done):
                        try:
                            slot(*args)
                        finally:
                            done.append(1)
                            k.unpark(t)
                    st.post(ident, run, ())
                    while not done:         # (for ever if we are the receiver)
                        k.park(None, on='blocking signal')
                else:
                    st.post(ident, slot, args)

    class pyqtSignal:
        def __init__(self, *types, **kw):
            self.types = types
            self.name = None

        def __set_name__(self, owner, name):
            self.name = name

        def __get__(self, obj, owner=None):
            if obj is None:
                return self
            d = obj.__dict__.setdefault('_qt_signals', {})
            if self.name not in d:
                d[self.name] = BoundSignal()
            return d[self.name]

    class QCoreApplication(QObject):
        def __init__(self, args=()):
            QObject.__init__(self)
            if st.app is not None:
                raise HarnessError('second QApplication')
            st.app = self
            st.app_thread = st.me()

        @staticmethod
        def instance():
            return st.app

        @staticmethod
        def processEvents(*a):
            k.point('qt.processEvents')
            st.process_events(st.me())

        @staticmethod
        def quit():
            st.quit()

        @staticmethod
        def exit(code=0):
            st.quit()

        def exec(self=None):
            return st.exec_loop()

        exec_ = exec

        def setQuitOnLastWindowClosed(self, v):
            pass

        def setApplicationName(self, v):
            pass

    class QApplication(QCoreApplication):
        pass

    class QThread(QObject):
        started = pyqtSignal()
        finished = pyqtSignal()

        def __init__(self, parent=None):
            QObject.__init__(self, parent)
            self._running = False
            self._done = False
            self._ident = None
            self._waiters = []

        def start(self, *a):
            if self._running:
                return
            self._running = True
            self._done = False
            ident = env.proc.alloc_ident()
            self._ident = ident

            def body():
                try:
                    self.run()
                except HarnessError:
                    import traceback
                    k.harness_error('QThread: %s' % traceback.format_exc())
                    k.finish('harness_error')
                except SystemExit:
                    pass
                except BaseException as e:
                    sysm = env.sys
                    env.report_uncaught(e)
                    if sysm.excepthook is sysm.__excepthook__:
                        k.record('qt_abort', pid=env.proc.pid)
                        env.proc.die(-6, killed=True)
                self._running = False
                self._done = True
                for t in list(self._waiters):
                    k.unpark(t)
                self.finished.emit()
            k.spawn(env.proc, body, '%s:qthread' % env.proc.name, ident)

        def run(self):
            ident = st.me()
            t = k.current
            self._quit = False
            while not self._quit:
                if not st.process_events(ident):
                    st.waiters.setdefault(ident, []).append(t)
                    k.park(None, on='qthread loop')
                    st.waiters[ident].remove(t)

        exec_ = exec = run

        def quit(self):
            self._quit = True
            for t in list(st.waiters.get(self._ident, ())):
                k.unpark(t)

        def isRunning(self):
            return self._running

        def isFinished(self):
            return self._done

        def wait(self, msecs=None):
            t = k.current
            deadline = None if msecs is None else k.now + int(msecs) * MS
            while self._running:
                if deadline is not None and k.now >= deadline:
                    return False
                self._waiters.append(t)
                k.park(deadline, on='qthread wait')
                self._waiters.remove(t)
            return True

        @staticmethod
        def currentThread():
            return st.me()

        @staticmethod
        def msleep(ms):
            k.sleep(ms * MS)

    class QTimer(QObject):
        timeout = pyqtSignal()

        def __init__(self, parent=None):
            QObject.__init__(self)
            self._gen = 0
            self._single = False
            self._iv = 0

        def setInterval(self, ms):
            self._iv = ms

        def setSingleShot(self, v):
            self._single = v

        def start(self, ms=None):
            if ms is not None:
                self._iv = ms
            self._gen += 1
            k.after(int(self._iv) * MS, self._tick, self._gen)

        def stop(self):
            self._gen += 1

        def _tick(self, gen):
            if gen != self._gen or env.proc.state != 'running':
                return
            st.post(self._qt_thread, self.timeout.emit, ())
            if not self._single:
                k.after(max(1, int(self._iv)) * MS, self._tick, gen)

        @staticmethod
        def singleShot(ms, fn):
            ident = st.me()
            k.after(int(ms) * MS, lambda: env.proc.state == 'running' and st.post(ident, fn, ()))

    class Qt:
        AutoConnection, DirectConnection, QueuedConnection, BlockingQueuedConnection = 0, 1, 2, 3
        UniqueConnection = 0x80

    class QWidget(QObject):
        def __init__(self, parent=None, **kw):
            QObject.__init__(self, parent)

        def show(self):
            pass

        def setLayout(self, layout):
            pass

    class QGridLayout(QObject):
        def setContentsMargins(self, *a):
            pass

        def addWidget(self, w, *a):
            pass

    class QTextBrowser(QWidget):
        def document(self):
            return types.SimpleNamespace(setDefaultStyleSheet=lambda css: None)

    for c in (QObject, QThread, QTimer, QCoreApplication):
        c.__module__ = 'PyQt5.QtCore'
        setattr(core, c.__name__, c)
    core.pyqtSignal = pyqtSignal
    core.pyqtSlot = lambda *a, **kw: (lambda f: f)
    core.Qt = Qt
    core.QT_VERSION_STR = '5.15'
    widgets.QApplication = QApplication
    for c in (QWidget, QGridLayout, QTextBrowser):
        c.__module__ = 'PyQt5.QtWidgets'
        setattr(widgets, c.__name__, c)
    gui.QGuiApplication = QCoreApplication
    for m in (core, gui, widgets):
        for n in _VALUE_TYPES[m.__name__]:
            if not hasattr(m, n):
                setattr(m, n, type(n, (QObject,) if m is widgets else (), {'__module__': m.__name__}))
    root.QtCore, root.QtGui, root.QtWidgets = core, gui, widgets
    test = types.ModuleType('PyQt5.QtTest')
    return {'PyQt5': root, 'PyQt5.QtCore': core, 'PyQt5.QtGui': gui, 'PyQt5.QtWidgets': widgets,
            'PyQt5.QtTest': test}
