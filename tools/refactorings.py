"""edits that keep the behaviour: (name, file, checks, definitions, subs)"""

STORES = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12"
REFACTORINGS = []


def R(name, file, props, code, subs=()):
    REFACTORINGS.append((name, file, props, code, subs))


R("lock-helpers", "codex/implements.py", "C04 C05 C09 C12", '''
class SlidingLock:
    def _say(self, what):
        if self.debug is True:
            log(f"{here()},{self.number},{what}")

    def _address(self, suffix):
        return f"{self.name}_{suffix}"

    def __enter__(self):
        self.spins = 0
        try:
            self._renumber()
            self.acquire()
        except BaseException as ex:
            self._say(f"crashing out: {ex}")
            self.release()
            raise
        return self

    def __exit__(self, *exc_info):
        self._say("entering cleanup")
        self.release()

    def _renumber(self):
        self.floor = int.from_bytes(bytes(self.count.buf), "little")
        number = self.floor + 1
        while True:
            try:
                marker = SharedMemory(
                    name=self._address(number), create=True, size=1
                )
            except FileExistsError:
                number += 1
            else:
                break
        self.number, self.marker = number, marker
        self._say(f"taking slot {self.number}")

    def _predecessor(self):
        number = self.number - 1
        while number >= self.floor:
            if exists_block(self._address(f"{number}_lock")):
                return number
            number -= 1
        return None

    def _check_acquirement(self):
        other = self._predecessor()
        if other is not None:
            self._say(f"{other} has precedence")
            self.wait()
            return False
        try:
            self.gate = SharedMemory(self._address("gate"), True, 1)
        except FileExistsError:
            self.wait()
            return False
        self._say("taking precedence")
        return True

    def wait(self):
        self.spins = self.spins + 1
        limit = self.max_spins
        if limit is not None and self.spins > limit:
            self._say("failure (waiting timeout)")
            raise TimeoutError("timed out waiting for lock")
        time.sleep(self.delay)

    def release(self):
        if self.acquired:
            floor = self.number.to_bytes(5, byteorder="little")
            self.count.buf[:5] = floor
            self._say(f"set floor to {self.number}")
        self.acquired = False
        for thing in ["lock", "marker", "gate"]:
            block, _ = getattr(self, thing), setattr(self, thing, None)
            if block is not None:
                block.close()
                block.unlink()
                self._say(f"released {thing}")

    def close(self):
        blocks = (self.lock, self.count, self.marker, self.gate)
        for name in [block.name for block in blocks if block is not None]:
            delete_block(name, missing_ok=True)
''')

R("lock-imports", "codex/implements.py", "C04 C05 C06 C07 C12", '''
''', [("import time\n", "from time import sleep\n"),
      ("time.sleep(self.delay)", "sleep(self.delay)"),
      ("import datetime as dt\n", "from datetime import datetime\n"),
      ("dt.datetime.now()", "datetime.now()"),
      ("import os\n", "from os import getpid\n"),
      ("os.getpid()", "getpid()"),
      ("from random import randint\n", "import random\n"),
      ("randint(", "random.randint("),
      ("import atexit\n", "from atexit import register, unregister\n"),
      ("atexit.register", "register"),
      ("atexit.unregister", "unregister"),
      ("from multiprocessing.shared_memory import SharedMemory\n",
       "from multiprocessing import shared_memory\n"),
      ("SharedMemory(", "shared_memory.SharedMemory("),
      ("from hashlib import sha256\n", "import hashlib\n"),
      ("partial(sha256,", "partial(hashlib.sha256,")])

R("lock-gate-first", "codex/implements.py", "C04 C05 C12", '''
class SlidingLock:
    def release(self):
        if self.acquired is True:
            self.count.buf[:] = self.number.to_bytes(5, "little")
            if self.debug is True:
                log(f"{here()},{self.number},set floor to {self.number}")
        self._drop("lock")
        self._drop("gate")
        self._drop("marker")
        self.acquired = False

    def _drop(self, thing):
        block = getattr(self, thing)
        if block is None:
            return
        block.unlink()
        block.close()
        setattr(self, thing, None)
        if self.debug is True:
            log(f"{here()},{self.number},released {thing}")
''')

R("index-structs", "codex/implements.py", "C03 C05 C07 C09 C12 C01 C02", '''
import struct


def read_number(block):
    return struct.unpack_from("<Q", block.buf)[0]


def write_number(block, number):
    struct.pack_into("<Q", block.buf, 0, number)


class TagIndex:
    def hash_address(self, key):
        digest = HASHER(str(key).encode("utf-8")).hexdigest()
        return "_".join([self.name, "name", digest])

    def key_address(self, index_ix):
        return "{}_key_{}".format(self.name, index_ix)

    def _debug(self, message):
        if self.debug is True:
            log(f"{here()},,{message}")

    def update_length(self):
        self.length = read_number(self.memory)

    def update(self):
        self.update_length()
        keys = []
        if self.length > 0:
            with self.lock_class(self.name, self.debug):
                for _, key in self._enumerate_keys():
                    keys.append(key)
        self.cache = keys
        return keys

    def check(self, target):
        try:
            nameblock = SharedMemory(self.hash_address(target))
        except FileNotFoundError:
            return None
        return read_number(nameblock)

    def _set_length(self, length):
        write_number(self.memory, length)

    def _add(self, key, exists_ok):
        found_at = self.check(key)
        if found_at is not None and exists_ok is True:
            self._debug(f"{key} already in index at {found_at}")
            return found_at
        if found_at is not None:
            raise FileExistsError
        self.update_length()
        position = self.length
        keybytes = str(key).encode()
        keyblock = open_block(
            self.key_address(position), len(keybytes), True, True
        )
        keyblock.buf[:len(keybytes)] = keybytes
        nameblock = open_block(self.hash_address(key), 8)
        write_number(nameblock, position)
        self._set_length(position + 1)
        self._debug(f"set {position} to {key}")
        return position

    def _move_last(self, found_at):
        last = SharedMemory(self.key_address(self.length - 1))
        lastkey = bytes(last.buf)
        moved = open_block(
            self.key_address(found_at), size=len(lastkey), overwrite=True
        )
        moved.buf[:] = lastkey
        write_number(
            SharedMemory(self.hash_address(lastkey.decode())), found_at
        )
        last.close()
        last.unlink()

    def _delitem(self, target):
        found_at = self.check(target)
        if found_at is None:
            raise KeyError(f"{target} not found in this index.")
        self.update_length()
        if found_at == self.length - 1:
            delete_block(self.key_address(found_at))
            self._debug(f"deleted block at position {found_at}")
        else:
            self._move_last(found_at)
            self._debug(f"moved last block to position {found_at}")
        delete_block(self.hash_address(target))
        self._set_length(self.length - 1)
        self._debug(f"deleted {target} at index slot {found_at}")
        return found_at

    def close(self):
        atexit.unregister(self.close)
        for key in list(self.update()):
            del self[key]
        self.memory.close()
        self.memory.unlink()
        delete_block(f"{self.name}_count", missing_ok=True)
''')

R("metaindex-eager", "codex/implements.py", "C02 C03 C05 C07 C09 C12", '''
class MetaTagIndex:
    def _enumerate(self, get_keys=False, get_values=False):
        self.update_length()
        rows = []
        if self.length == 0:
            return rows
        with self.lock_class(self.name, self.debug):
            self.update_length()
            for ix in range(self.length):
                row = (ix,)
                if get_keys:
                    row += (self._load_key(ix),)
                if get_values:
                    row += (self._load_value(ix),)
                rows.append(row)
        return rows

    def keys(self):
        keys = []
        for _, key in self._enumerate(get_keys=True):
            keys.append(key)
        return keys

    def _load_value(self, ix):
        address = self.val_address(ix)
        try:
            value = self.remember(address)
        except FileNotFoundError:
            value = None
        return value

    def add(self, key, value=None, exists_ok=True):
        with self.lock_class(self.name, self.debug):
            was_there = self.check(key) is not None
            writehead = self._add(key, exists_ok)
            if value is None:
                return writehead
            try:
                self.memorize(value, self.val_address(writehead))
            except Exception as ex:
                if not was_there:
                    self._delitem(key)
                raise ex
        return writehead

    def __getitem__(self, key):
        with self.lock_class(self.name, self.debug):
            found_at = self.check(key)
            if found_at is not None:
                return fetch_block_bytes(self.val_address(found_at))
        raise KeyError(f"{key} not found in index.")

    def __delitem__(self, target):
        with self.lock_class(self.name, self.debug):
            found_at = self._delitem(target)
            last = self.length - 1
            if found_at != last and exists_block(self.val_address(last)):
                value = fetch_block_bytes(self.val_address(last))
                moved = open_block(
                    self.val_address(found_at), len(value), overwrite=True
                )
                moved.buf[:] = value
                delete_block(self.val_address(last))
            else:
                delete_block(self.val_address(found_at), missing_ok=True)
            return found_at
''')

R("notepads-loops", "codex/implements.py", "C01 C02 C05 C07 C09 C11 C12", '''
RESERVED = "index"


def is_reserved(key):
    return isinstance(key, str) and key[:len(RESERVED)] == RESERVED


class AbstractNotepad:
    def get_raw(self, key):
        block = SharedMemory(self.address(key))
        return bytes(block.buf)

    def address(self, key):
        return "{}_{}".format(self.prefix, key)

    def keys(self):
        return self.index.update()

    def iterkeys(self):
        return iter(self.update_index())

    def itervalues(self):
        return (self[key] for key in self.update_index())

    def iteritems(self):
        keys = self.update_index()
        return zip(keys, map(self.__getitem__, keys))


class Notepad:
    def __getitem__(self, key, fetch=True):
        address = self.address(key)
        try:
            value = self.remember(address, fetch=fetch)
        except FileNotFoundError as missing:
            raise KeyError(f"{key} not apparently assigned") from missing
        return value

    def __setitem__(self, key, value, meta=None, exists_ok: bool = True):
        if is_reserved(key):
            raise KeyError("'index' is a reserved key prefix")
        address = self.address(key)
        was_there = exists_block(address)
        try:
            self.index.add(key, meta, exists_ok=exists_ok)
            self._write(key, value, address, exists_ok, was_there)
        except FileExistsError:
            raise KeyError(f"{key} already exists in this object's cache.")

    def _write(self, key, value, address, exists_ok, was_there):
        try:
            self.memorize(value, address, exists_ok=exists_ok)
        except Exception:
            if not (was_there or exists_block(address)):
                self.index.remove(key)
            raise
        if self.debug is True:
            log(f"{here()},,set key={key} to {value}")

    def __delitem__(self, key):
        if is_reserved(key):
            raise KeyError("'index' is a reserved key prefix")
        try:
            delete_block(self.address(key))
            del self.index[key]
        except FileNotFoundError as missing:
            raise KeyError(f"{key} not apparently assigned") from missing

    def dump(self, key, fn=None, mode="wb"):
        raw = self.get_raw(key)
        if fn is None:
            fn = self.address(key).replace(".", "_")
        with Path(fn).open(mode) as stream:
            stream.write(raw)

    def close(self, dump=False):
        atexit.unregister(self.close)
        try:
            for key in tuple(self.update_index()):
                if dump is True:
                    self.dump(key)
                self.__delitem__(key)
            self.index.close()
        except AttributeError:
            return

    def clear(self):
        keys = list(self.update_index())
        while keys:
            del self[keys.pop(0)]


class GridPaper:
    def __getitem__(self, key, fetch=True, copy=True):
        try:
            metadata = self.index[key]
            result, block = self.remember(metadata, fetch, copy)
        except FileNotFoundError as missing:
            raise KeyError(f"{key} not found in this object's space.") \\
                from missing
        if copy is False:
            self._open_blocks.append(block)
        return result

    def __setitem__(
        self, key, value, exists_ok: bool = True, keep_open: bool = False
    ):
        if is_reserved(key):
            raise KeyError("'index' is a reserved namespace.")
        address = self.address(key)
        was_there = exists_block(address)
        try:
            metadata, block = self.memorize(
                value, address, exists_ok=exists_ok, keep_open=keep_open
            )
        except FileExistsError:
            raise KeyError(f"{key} already exists in this object's cache.")
        if keep_open is True:
            self._open_blocks.append(block)
        try:
            self.index.add(key, metadata)
        except Exception:
            if not was_there:
                delete_block(address, missing_ok=True)
            raise

    def dump(self, key, fn=None):
        array = self[key]
        if fn is None:
            fn = self.address(key).replace(".", "_")
        with open(fn, "wb") as stream:
            stream.write(array.tobytes())

    def close(self, dump=False):
        atexit.unregister(self.close)
        for key in list(self.update_index()):
            if dump is True:
                self.dump(key)
            self.__delitem__(key)
        self.index.close()
''')

R("sticky-loops", "codex/implements.py", "C06 C07", '''
def free_address():
    while True:
        address = str(randint(100000, 999999))
        if not exists_block(address):
            return address


class Sticky:
    @classmethod
    def note(cls, obj, address=None, cleanup_on_exit=False):
        address = free_address() if address is None else str(address)
        note = cls(address, obj, cleanup_on_exit)
        note.stick(obj)
        return note

    def read(self, reread=False):
        if not reread and self._cached_value is not None:
            return self._cached_value
        try:
            stream = fetch_block_bytes(self.address)
        except FileNotFoundError:
            return None
        value = self.decode(stream)
        self._cached_value = value
        return value

    def close(self):
        atexit.unregister(self.close)
        delete_block(self.address)

    def stick(self, obj):
        encoded = self.encode(obj)
        block = open_block(
            self.address, size=len(encoded), create=True, overwrite=True
        )
        block.buf[:len(encoded)] = encoded
        block.close()
        self._cached_value = obj
        if self.cleanup_on_exit:
            atexit.unregister(self.close)
            atexit.register(self.close)
''')

R("memutilz", "codex/memutilz.py", STORES, '''
EMPTY = "cannot mmap an empty file"


def is_unsized(error):
    return EMPTY in str(error)


def open_block(address, size, create=True, overwrite=False):
    while True:
        try:
            return SharedMemory(name=address, create=create, size=size)
        except FileExistsError:
            block = _attach(address)
        if block is None:
            continue
        if not overwrite:
            return block
        try:
            block.unlink()
        except FileNotFoundError:
            pass
        block.close()


def _attach(address):
    try:
        return SharedMemory(address)
    except FileNotFoundError:
        return None
    except ValueError as error:
        if not is_unsized(error):
            raise
        time.sleep(0)
        return None


def fetch_block_bytes(address: str) -> bytes:
    block = SharedMemory(address)
    return bytes(block.buf)


def exists_block(address: str) -> bool:
    try:
        block = SharedMemory(address)
    except FileNotFoundError:
        return False
    except ValueError as error:
        if not is_unsized(error):
            raise
    else:
        block.close()
    return True


def delete_block(address: str, missing_ok=False):
    try:
        block = SharedMemory(address)
        block.close()
        block.unlink()
    except FileNotFoundError:
        if not missing_ok:
            raise


def deactivate_shared_memory_resource_tracker():
    if sys.platform in ('win32', 'cygwin'):
        return
    from multiprocessing import resource_tracker

    def deaf(method):
        def heard(name, rtype):
            if rtype != "shared_memory":
                tracker = resource_tracker._resource_tracker
                return getattr(tracker, method)(name, rtype)
        return heard

    resource_tracker.register = deaf("register")
    resource_tracker.unregister = deaf("unregister")
    resource_tracker._CLEANUP_FUNCS.pop("shared_memory", None)
''')

R("codecs", "codex/codecs.py", "C01 C02 C05 C06 C08 C09 C11 C12", '''
def json_codec_factory():
    def encode(value):
        return bytes(json.dumps(value), "utf-8")

    return encode, json.loads


def ast_codec_factory():
    def encode(value):
        text = repr(value) if isinstance(value, str) else str(value)
        return text.encode("utf-8")

    def decode(blob):
        text = blob.decode("utf-8")
        return ast.literal_eval(text)
    return encode, decode


def pickle_codec_factory():
    def encode(value):
        return pickle.dumps(value, pickle.HIGHEST_PROTOCOL)
    return encode, pickle.loads


def generic_mnemonic_factory():
    def memorize(value, address, exists_ok, encode):
        if exists_ok is False:
            if exists_block(address):
                raise FileExistsError
        blob = encode(value)
        block = open_block(address, size=len(blob), create=True,
                           overwrite=True)
        block.buf[:len(blob)] = blob
        return address

    def remember(address, fetch=True, decode=zero):
        if fetch is not False:
            block = SharedMemory(address)
            return decode(block.buf.tobytes())
        return SharedMemory(address)

    return memorize, remember


def numpy_mnemonic_factory():
    import numpy as np

    def describe(dtype):
        if dtype.names is None:
            return dtype.str
        return repr(np.lib.format.dtype_to_descr(dtype))

    def undescribe(text):
        if not text.startswith("["):
            return np.dtype(text)
        return np.lib.format.descr_to_dtype(ast.literal_eval(text))

    def memorize_array(array, address, exists_ok, keep_open):
        if array.dtype.hasobject:
            raise TypeError("can't store arrays of Python objects")
        if array.base is not None:
            array = array.copy()
        size = array.nbytes or 1
        if exists_ok is False:
            block = SharedMemory(address, create=True, size=size)
        else:
            block = open_block(address, size)
            if block.size < size:
                block.close()
                block = open_block(address, size, overwrite=True)
        shared = np.ndarray(array.shape, array.dtype, block.buf)
        np.copyto(shared, array)
        metadata = dict(name=block.name, dtype=describe(array.dtype),
                        shape=array.shape, size=array.nbytes)
        return metadata, (block if keep_open is not False else None)

    def remember_array(metadata_json, fetch=True, copy=True):
        metadata = json.loads(metadata_json)
        block = SharedMemory(metadata["name"])
        if fetch is False:
            return block
        array = np.ndarray(
            tuple(metadata["shape"]), undescribe(metadata["dtype"]),
            buffer=block.buf
        )
        if copy is True:
            return np.array(array), None
        return array, block

    return memorize_array, remember_array
''')

R("composition", "composition.py", "M01 M02 M03 M05 M04", '''
class Composition:
    def add_step(self, step, name=None):
        if name is None:
            name = len(self.steps) + 1
        if name in self.steps:
            self.steps[name] = step
            return
        self.steps[name] = step
        self._add_track_send(name)

    def _add_track_sends(self):
        for name in list(self.steps):
            self._add_track_send(name)

    def reindex(self):
        self.steps = dict(enumerate(self.steps.values()))

    def _perform_sends(self, step_name, state):
        for pipe, target, index in self.sends.get(step_name) or ():
            self._perform_send(state, pipe, target, index)

    def _perform_send(self, state, pipe, target, index):
        if pipe is not None:
            state = pipe(state)
        if target is not None:
            self.place_into(state, target, index)

    def add_captures(self):
        self.captures = {}
        for step in self.steps:
            self.captures[step] = [None]
            self.add_capture(step, self.captures[step])

    def add_send(self, step_name, pipe=None, target=None, pointer=None):
        if pipe is None and target is None:
            raise ValueError(
                "Either pipe or target must be defined to create a send.")
        existing = self.sends.get(step_name)
        sends = [] if existing is None else list(existing)
        sends.append((pipe, target, pointer))
        self.sends[step_name] = sends

    def add_insert(self, step_name, key, value):
        insert = self.inserts.get(step_name)
        if insert is None:
            insert = self.inserts[step_name] = {}
        insert[key] = value

    def place_into(self, thing, target, pointer):
        if isinstance(target, (str, int)):
            return self.add_insert(target, pointer, thing)
        if isinstance(target, list) and pointer is None:
            target.append(thing)
        elif isinstance(target, (list, dict)):
            target[pointer] = thing
        elif hasattr(target, "write"):
            target.write(thing)

    @staticmethod
    def _flow_signal(state, args):
        opening = 0
        while opening in args:
            opening += 1
        positional = {**args, opening: state}
        return [positional[k] for k in sorted(positional)]

    def _call_partial_step(self, state, step, args, kwargs):
        baked = dict(enumerate(step.args))
        baked.update(args)
        keywords = {**step.keywords, **kwargs}
        if not baked:
            return step.func(state, **keywords)
        return step.func(*self._flow_signal(state, baked), **keywords)

    def call_step(self, step_name, state):
        step = self.steps[step_name]
        insert = self.inserts.get(step_name) or {}
        args = {k: v for k, v in insert.items() if isinstance(k, int)}
        kwargs = {k: v for k, v in insert.items() if isinstance(k, str)}
        if all(hasattr(step, attr) for attr in ("func", "args", "keywords")):
            return self._call_partial_step(state, step, args, kwargs)
        return step(*self._flow_signal(state, args), **kwargs)

    def itercall(self, signal=None, **special_kwargs):
        self._bind_special_runtime_kwargs(special_kwargs)
        for step_name in self.steps.keys():
            signal = self._do_step(step_name, signal)
            yield signal

    def execute(self, signal=None, **special_kwargs):
        done, state = 0, None
        try:
            for state in self.itercall(signal, **special_kwargs):
                done += 1
        except Exception as ex:
            self._record_failure(ex, done)
            if self.optional is True:
                return None
            raise
        return state

    def _record_failure(self, ex, done):
        if self.tracker is None:
            return
        failing = list(self.steps.values())[done]
        self.tracker.track(failing, **exc_report(ex))
''')

R("dynamic", "dynamic.py", "D01 D02 D03 M03", '''
def digsource(obj):
    if isinstance(obj, FunctionType) or isinstance(obj, MethodType):
        return getsource(obj)
    if isinstance(obj, Dynamic) and obj.source is not None:
        return obj.source
    if not hasattr(obj, "func"):
        raise TypeError(f"cannot get source for type {type(obj)}")
    inner = obj.func
    if hasattr(inner, "func"):
        return digsource(inner)
    return getsource(inner)


def get_codechild(code, ix=0):
    children = [c for c in code.co_consts if isinstance(c, CodeType)]
    return nth(ix, children)


def dontcare(func, target):
    def record_exception(exc):
        record = exc_report(exc)
        record.update(func=func, category="call")
        target.append(record)

    return optionalize(func, record_exception)


def define(code, globals_=None):
    if globals_ is None:
        globals_ = globals()
    return FunctionType(code, globals_)


def _frame_name(frame):
    code = frame.f_code
    module = getmodule(frame)
    if module is None:
        return code.co_name
    name = getattr(code, "co_qualname", code.co_name)
    return f"{module.__name__}.{name}"


def exc_report(exc, stringify_exception=True):
    if exc is None:
        return {}
    report = {
        "exception": exc if stringify_exception is False
        else "{}: {}".format(type(exc), exc),
        "lineno": [], "name": [], "filename": []
    }
    level = exc.__traceback__
    while level is not None:
        frame = level.tb_frame
        report["name"].append(_frame_name(frame))
        report["lineno"].append(level.tb_lineno)
        report["filename"].append(frame.f_code.co_filename)
        level = level.tb_next
    return report


class Dynamic:
    def load(self, reload=False):
        if reload is False and self.func is not None:
            raise AlreadyLoadedError("self.func already loaded")
        if self.code is None or reload is True:
            self.compile_source(reload)
        self.define(reload)

    def compile_source(self, recompile=True):
        if self.code is not None and recompile is False:
            raise AlreadyLoadedError("self.code already compiled")
        try:
            self.code = compile_source(self.source)
        except Exception as ex:
            report = exc_report(ex)
            report["category"] = "compile"
            self.errors.append(report)
            self.compile_fail = True

    def unload(self):
        self.errors = []
        self.call_fail = self.compile_fail = False
        self.code = self.func = None
        self.__signature__ = None
        self.__name__ = type(self).__name__

    def _maybe_load_on_call(self, reload=False):
        if self.func is None:
            if self.load_on_call is not True:
                raise UnreadyError("No loaded function.")
            self.load(reload)

    def __call__(self, *args, _optional=None, **kwargs):
        self._maybe_load_on_call()
        optional = self.optional if _optional is None else _optional
        if optional is False:
            return self.func(*args, **kwargs)
        careless = dontcare(self.func, self.errors)
        try:
            return careless(*args, **kwargs)
        finally:
            if self.errors and self.errors[-1].get("category") == "call":
                self.call_fail = True
''')

R("func", "func.py", "F01 D02 M01 S01 S02", '''
import itertools


def pass_parameters(function, *args, **kwargs):
    return function(*args, **kwargs)


def catch_interaction(noninteractive, func, *args, _default="", **kwargs):
    if not noninteractive:
        return func(*args, **kwargs)
    return _default


def naturals():
    return itertools.count(1)


def triggerize(niladic_function):
    @wraps(niladic_function)
    def trigger(deferred_state=None):
        _ = niladic_function()
        return deferred_state

    return trigger


def are_in(items, oper=and_):
    def in_it(container):
        results = [item in container for item in items]
        total = results[0]
        for result in results[1:]:
            total = oper(total, result)
        return total

    return in_it


def intersection(*iterables):
    first, *others = map(set, iterables)
    for other in others:
        first = first & other
    return first


def disjoint(*sets):
    shared, separate = intersection(*sets), []
    for this_set in sets:
        separate.append([item for item in this_set if item not in shared])
    return separate


def constant(value):
    return lambda *_, **__: value


def gmap(func, *iterables, mapper=map, evaluator=tuple):
    mapped = mapper(func, *iterables)
    return evaluator(mapped)


def filtern(func, iterable):
    iterator = filter(func, iterable)
    return next(iterator)


def argstop(func, arg_count=0, unpack=True):
    @wraps(func)
    def stopargs(*args, **kwargs):
        if unpack is True and len(args) == 1:
            (args,) = args
        return func(*args[:arg_count], **kwargs)

    return stopargs


def optionalize(func, exc_callback=zero):
    @wraps(func)
    def optionally(*args, **kwargs):
        try:
            result = func(*args, **kwargs)
        except Exception as e:
            exc_callback(e)
            return None
        return result
    return optionally
''')

R("tracker", "tracker.py", "M03 M04", '''
import inspect


def name_of(func):
    return func.__name__ if hasattr(func, "__name__") else str(func)


class Tracker:
    def __init__(self, name=None, identifier="", outdir=None):
        self.name = name
        self.history = []
        self.metadata = {}
        self.counter = count(1)
        self.log = dict(
            name=name, init_timestamp=dt.datetime.now().isoformat(),
            history=self.history,
        )
        if outdir is None:
            outdir = Path(__file__).parents[1] / ".tracker_logs"
        outdir.mkdir(exist_ok=True)
        stem = f"{identifier}_{name}" if identifier != "" else f"{name}"
        self.outpath = Path(outdir) / f"{stem}.json"

    def clear(self):
        try:
            self.outpath.unlink()
        except FileNotFoundError:
            pass
        del self.history[:]
        self.counter = count(1)

    def track(self, func, **metadata):
        info = inspect.stack()[1]
        rec = dict(
            target=name_of(func), caller=info.function, lineno=info.lineno,
            trackcount=next(self.counter)
        )
        rec.update(self.metadata)
        rec.update(metadata)
        self.history += [rec]

    def set_metadata(self, **metadata):
        self.metadata.update(metadata)

    def dump(self):
        if self.paused is True:
            return
        self.log["write_timestamp"] = dt.datetime.now().isoformat()
        history = self.log.pop("history")
        self.log["history"] = history
        self._append(json.dumps(self.log, indent=2).encode())

    def _append(self, entry):
        content = b"[" + entry
        if self.outpath.exists():
            with open(self.outpath, "rb") as stream:
                content = stream.read()[:-1] + b",\\n" + entry
        content += b"]"
        temporary = Path(str(self.outpath) + ".tmp")
        try:
            with open(temporary, "wb") as stream:
                stream.write(content)
            temporary.replace(self.outpath)
        except BaseException:
            if temporary.exists():
                temporary.unlink()
            raise
''')

R("scrape", "scrape.py", "R01", '''
LITERAL_ERRORS = (
    ValueError, SyntaxError, TypeError, MemoryError, RecursionError
)


def _literal_or_text(text):
    try:
        return literal_eval(text)
    except LITERAL_ERRORS:
        return text


def make_scraper(label_text):
    def scrape(pattern):
        found = re.compile(pattern).search(label_text)
        return None if found is None else _literal_or_text(found.group(1))

    return scrape


def get_label_text(label, byte_size=35592):
    with Path(label).open("rb") as file:
        head = file.read(byte_size)
    return _decode_head(head, byte_size)


def scrape_subframe(label_text):
    block = SUBFRAME_GROUP.search(label_text)[0]
    return tuple(map(int, re.findall(r"\\d+", block)))


def head_file(fn_or_reader, nbytes):
    if hasattr(fn_or_reader, "read"):
        reader = fn_or_reader
    else:
        reader = open(fn_or_reader, mode="rb")
    head = reader.read(nbytes)
    reader.close()
    return BytesIO(head)


def trim_label(fn, max_size=MAX_LABEL_SIZE, raise_for_failure=False):
    head = head_file(fn, max_size).read()
    for ending in KNOWN_LABEL_ENDINGS:
        endmatch = re.search(ending, head)
        if endmatch is None:
            continue
        return str(head[:endmatch.end()], "utf-8")
    if not raise_for_failure:
        return _decode_head(head, max_size)
    raise ValueError("couldn't find a label ending")


def scrape_patterns(
    label, metadata_regex, supplemental_search_function=None,
    label_loader=cached_label_loader
):
    label_text = label_loader(label)
    scrape = make_scraper(label_text)
    metadata = {}
    for field in metadata_regex:
        metadata[field] = scrape(metadata_regex[field])
    if supplemental_search_function is None:
        return metadata
    extra = supplemental_search_function(label, label_text)
    return {**metadata, **extra}


def bulk_scrape_metadata(files, pattern_scraper):
    return [pattern_scraper(file) for file in files]
''', [('MAX_LABEL_SIZE = 500 * 1024\n', 'MAX_LABEL_SIZE = 512000\n')])

R("mosaic", "mosaic.py", "Q01 Q02", '''
def parquet_metadata_records(parquet_fn):
    meta = parquet.ParquetFile(parquet_fn).metadata
    records = []
    for col_ix in range(meta.num_columns):
        for group_ix in range(meta.num_row_groups):
            record = meta.row_group(group_ix).column(col_ix).to_dict()
            statistics = record.pop("statistics", None)
            if statistics:
                record.update(statistics)
            record["row_group"] = group_ix
            record["col_ix"] = col_ix
            records.append(record)
    return records


def _may_overlap(rec, bounds):
    if rec.get("min") is None:
        return True
    low, high = bounds
    if rec["max"] < low:
        return False
    return high is None or rec["min"] <= high


def read_between(
    parquet_file, field, bounds, meta_records, columns=None, verbose=True
):
    parquet_file.schema_arrow.field(field)
    bound_records = [
        rec for rec in meta_records
        if rec.get("path_in_schema", field) == field
        and _may_overlap(rec, bounds)
    ]
    if verbose is True:
        print(len(bound_records), len(meta_records))
    if not bound_records:
        return None
    low, high = bounds
    tables = []
    for rec in bound_records:
        group = parquet_file.read_row_group(rec["row_group"])
        group = group.filter(pac.greater_equal(group[field], low))
        if high is not None:
            group = group.filter(pac.less(group[field], high))
        tables.append(group)
    table = pa.concat_tables(tables)
    if columns is None:
        return table
    return table.select(columns)


def meta_column_df(parquet_fn, extended=False):
    records = parquet_metadata_records(parquet_fn)
    metadata = meta_record_df(records, extended)
    metadata = metadata.set_axis(metadata["column"].tolist(), axis=0)
    return metadata.T
''')

R("structures", "structures.py", "S01 S02 S03 S04 S05 S06 S07 D02 M01 M05", '''
import operator


class NestingDict:
    def todict(self):
        def is_nesting(_, value):
            return isinstance(value, NestingDict)

        def plain(_, value):
            return dict(value)

        return dict(dig_and_edit(self, is_nesting, plain))


def listify(thing):
    if isinstance(thing, Collection) and not isinstance(thing, str):
        return list(thing)
    return [thing]


def reindex_mapping(mapping):
    assert isinstance(mapping, Mapping), "reindex_mapping only takes Mappings"
    return dict(enumerate(mapping.values()))


def enumerate_as_mapping(sequence):
    if isinstance(sequence, Mapping):
        return sequence
    return {} if sequence is None else dict(enumerate(sequence))


def get_from_all(key, mappings, default=None):
    if isinstance(mappings, Mapping):
        mappings = mappings.values()
    return [mapping.get(key, default) for mapping in mappings]


def getitemattr(collection, key):
    try:
        return collection[key]
    except (KeyError, IndexError, TypeError):
        pass
    return getattr(collection, key)


def get_from(collection, keys, default=None):
    try:
        return reduce(getitemattr, keys, collection)
    except (AttributeError, TypeError):
        return default


def constant_to_dig_predicate(putative_predicate, match="key", default=eq):
    if callable(putative_predicate):
        return putative_predicate
    matcher = partial(default, putative_predicate)
    if match == "key":
        return lambda key, _: matcher(key)
    if match == "value":
        return lambda _, value: matcher(value)
    if match == "item" and default is eq:
        return lambda *item: item == putative_predicate
    if match == "item":
        return matcher


def _evaluate_diglevel(mapping, predicate, mtypes):
    level_items, nests = [], []
    for key, value in mapping.items():
        if predicate(key, value):
            level_items.append((key, value))
        if isinstance(value, mtypes):
            nests.append(value)
    return level_items, nests


def dig_for_all(mapping, predicate, mtypes):
    items, nests = _evaluate_diglevel(mapping, predicate, mtypes)
    for nest in nests:
        items.extend(dig_for_all(nest, predicate, mtypes))
    return items


def dig_for(mapping, predicate, mtypes):
    queue = [mapping]
    while len(queue) > 0:
        items, nests = _evaluate_diglevel(queue.pop(0), predicate, mtypes)
        if len(items) > 0:
            return items
        queue.extend(nests)
    return None


def dig_and_edit(mapping, filter_func, setter_func, mtypes=(dict,)):
    matches = [
        (key, value) for key, value in mapping.items()
        if filter_func(key, value)
    ]
    mapping.update(
        {key: setter_func(key, value) for key, value in matches}
    )
    for value in list(mapping.values()):
        if isinstance(value, mtypes):
            dig_and_edit(value, filter_func, setter_func, mtypes)
    return mapping


def separate_by(collection, ref):
    hits, misses = [], []
    for item in collection:
        (hits if ref(item) is True else misses).append(item)
    return hits, misses


def rmerge(map1, map2, mtypes=(dict, OrderedDict)):
    output = {}
    for key, value in map1.items():
        if key not in map2:
            output[key] = value
        elif isinstance(value, mtypes) and isinstance(map2[key], mtypes):
            output[key] = rmerge(value, map2[key], mtypes)
        else:
            output[key] = map2[key]
    for key, value in map2.items():
        if key not in map1:
            output[key] = value
    return output


class HashDict:
    def __setitem__(self, key, item):
        itemhash = self.hasher(item)
        self.reverse.setdefault(itemhash, item)
        self.dict_[key] = itemhash

    def __getitem__(self, key):
        itemhash = self.dict_[key]
        return self.reverse[itemhash]


class MaybeResult:
    def __init__(self, func, args, kwargs):
        try:
            result = func(*args, **kwargs)
        except Exception as ex:
            result = ex
        self.value = result


class MaybePool:
    def __init__(self, threads=None):
        self.threads = threads
        self.results = {}
        self.chunked = False
        self.pool = Pool(threads) if threads is not None else None

    def map(self, func, argrecs, as_chunks=False):
        filled = []
        for i, rec in enumerate(argrecs):
            filled.append({"key": i, "args": (), "kwargs": {}} | dict(rec))
        self.chunked = as_chunks is not False and self.pool is not None
        self.results = {}
        if self.chunked:
            for i, chunk in enumerate(divide(self.threads, filled)):
                self.results[f"chunk_{i}"] = self.apply(
                    _chunkwrap, (func, list(chunk)))
            return
        for rec in filled:
            self.results[rec["key"]] = self.apply(
                func, rec["args"], rec["kwargs"])

    def apply(self, func, args=(), kwargs=None):
        kwargs = kwargs if kwargs is not None else {}
        if self.pool is not None:
            return self.pool.apply_async(func, args=args, kwds=kwargs)
        return MaybeResult(func, args, kwargs)

    def _collect(self, result, key):
        try:
            value = result.get()
        except Exception as ex:
            return {key: ex}
        return value if self.chunked else {key: value}

    def get(self, raise_exc=False):
        output = {}
        for k, v in self.results.items():
            if not raise_exc:
                output.update(self._collect(v, k))
            elif not self.chunked:
                output[k] = v.get()
            else:
                for key, value in v.get().items():
                    if isinstance(value, Exception):
                        raise value
                    output[key] = value
        return output

    @property
    def n_ready(self):
        return sum(1 for r in self.results.values() if r.ready())

    def ready(self):
        return self.n_ready == self.n_results

    def terminate(self):
        self.results = {}
        if self.pool is None:
            return
        self.pool.terminate()
''')

R("pivot", "pivot.py", "V01 V02 V03 V04 Q02", '''
def dupe_df_block(dataframe, repeats):
    positions = [i for i in range(len(dataframe)) for _ in range(repeats)]
    return dataframe.take(positions).reset_index(drop=True)


def _equal_columns(one, two):
    equal = (one == two).fillna(False)
    return (equal | (one.isna() & two.isna())).all()


def check_and_drop_duplicate_columns(dataframe):
    duplicated = dataframe.columns.duplicated()
    if not duplicated.any():
        return dataframe
    for column in dataframe.columns[duplicated].unique():
        columns = dataframe.loc[:, column]
        one = columns.iloc[:, 0]
        if not all(_equal_columns(one, columns.iloc[:, i])
                   for i in range(1, columns.shape[1])):
            raise ValueError
    return dataframe.loc[:, ~duplicated]


def _is_constant(series):
    if series.empty:
        return True
    first = series.iloc[0]
    if series.dtype == object:
        for value in series:
            equal = value == first
            if equal is pd.NA or not equal:
                return False
        return True
    return bool((series == first).fillna(False).all())


def split_on(df, predicate):
    if isinstance(predicate, pd.Series):
        predicate = predicate.fillna(False).astype(bool)
    matching = df.loc[predicate]
    rest = df.loc[~predicate]
    return matching, rest


def numeric_columns(df):
    return typed_columns(df, typenames=(r"int\\d", r"float\\d"))


def junction(df1, df2, columns, set_method="difference"):
    columns = list(columns)
    keys1, keys2 = [
        set(df[columns].value_counts().index) for df in (df1, df2)
    ]
    return getattr(keys1, set_method)(keys2)


def unpack(series):
    dropped = series.dropna()
    df = pd.DataFrame(dropped.to_list(), index=dropped.index)
    names = []
    for i in range(df.shape[1]):
        names.append(f"{dropped.name}_{i}")
    return df.set_axis(names, axis=1)


def unique_to_records(df, cols):
    records = []
    for values in df[cols].value_counts().index:
        records.append(dict(zip(cols, values)))
    return pd.DataFrame(records, columns=cols)


def squeeze(series, aggfunc=None):
    if aggfunc is None and series.dtype.char != "?":
        return series[~series.index.duplicated(keep="first")]
    how = "any" if aggfunc is None else aggfunc
    levels = list(range(series.index.nlevels))
    return series.groupby(level=levels, dropna=False).agg(how)


def _downcast_int_array(arr, library, name=None):
    if arr.size == 0:
        return _maybeseries(arr, arr.dtype, library, name, 0, 0)
    low, high = arr.min(), arr.max()
    kind = "int" if low < 0 else "uint"
    for dt in [np.dtype(f"{kind}{bits}") for bits in (8, 16, 32, 64)]:
        if check_in_dtype_bounds(low, high, dt):
            return _maybeseries(arr, dt, library, name, 0, 0)
    raise TypeError("Unusual failure in downcasting integer array.")


def downcast_df(
    df, atol=1e-5, rtol=1e-7, use_nillable_int=False, reassemble=True,
    copy_all=True
):
    def recast(col):
        if not is_numeric_dtype(col.dtype):
            return col.copy() if copy_all is not False else col
        result = downcast(
            col, atol, rtol, "pandas", use_nillable_int)["recast"]
        return result.set_axis(col.index)

    cast_series = [recast(df.iloc[:, i]) for i in range(df.shape[1])]
    if reassemble is not True:
        return cast_series
    if not cast_series:
        return df.copy()
    return pd.concat(cast_series, axis=1).set_axis(df.columns, axis=1)
''')

R("test-utils", "test_utils/core.py", "T01 T02", '''
import multiprocessing


def pick_key_at_level(mapping, keys, hashables, branch_weight):
    level_mapping = mapping
    for key in keys:
        level_mapping = level_mapping[key]
    nestkeys = [
        k for k, v in level_mapping.items() if isinstance(v, NestingDict)
    ]
    if nestkeys and RNG.random() <= branch_weight:
        return RNG.choice(nestkeys)
    return randval(RNG.choice(hashables))


def piped(func):
    here, there = multiprocessing.Pipe()

    def sendback(*args, **kwargs):
        try:
            there.send(func(*args, **kwargs))
        except Exception as ex:
            there.send(ex)

    return here, sendback


def wrap_piped(func, block=True):
    def get_results_from_child_process(*args, **kwargs):
        here, sendback = piped(func)
        proc = multiprocessing.Process(
            target=sendback, args=args, kwargs=kwargs)
        proc.start()
        if block is not True:
            return proc
        proc.join()
        result = here.recv()
        proc.close()
        return result

    return get_results_from_child_process
''')
