"""Recording upload handlers (Jython) whose behaviour is a table; loaded by dotted path like a user's own."""
from request_parser.files.uploadhandler import (
    FileUploadHandler, SkipFile, StopFutureHandlers, StopUpload,
)

SPECS = []
LOG = []
INSTANCES = []


def configure(specs):
    SPECS[:] = specs
    LOG[:] = []
    INSTANCES[:] = []


def take_log():
    out = list(LOG)
    LOG[:] = []
    return out


class Obj(object):
    """A file object a handler may return; not an UploadedFile."""

    def __init__(self, tag, data):
        self.tag = tag
        self.data = data
        self.closed = False
        self.name = tag
        self.size = len(data)
        self.content_type = self.charset = self.content_type_extra = self.transfer_encoding = None

    def seek(self, n):
        pass

    def read(self):
        return self.data

    def close(self):
        self.closed = True


class Empty(Obj):
    """One that is false, as an empty container is."""

    def __len__(self):
        return 0


class Base(FileUploadHandler, object):
    index = None

    def __init__(self, request=None):
        FileUploadHandler.__init__(self, request)
        self.spec = SPECS[self.index]
        if self.spec.get('chunk_size'):
            self.chunk_size = self.spec['chunk_size']
        self.nfile = -1
        self.data = b''
        INSTANCES.append(self)

    def log(self, *a):
        LOG.append([self.index] + list(a))

    def handle_raw_input(self, input_data, META, content_length, boundary, settings, encoding=None):
        self.log('raw', content_length, boundary)
        if self.spec.get('raw') == 'take':
            return {'taken': self.index}, {}

    def new_file(self, field_name, file_name, content_type, content_length, charset=None,
                 content_type_extra=None, transfer_encoding=None):
        self.log('new', field_name, file_name, content_type, content_length, charset,
                 dict(content_type_extra or {}), transfer_encoding)
        FileUploadHandler.new_file(self, field_name, file_name, content_type, content_length, charset,
                                   content_type_extra, transfer_encoding)
        self.nfile += 1
        self.data = b''
        act = self.act('new')
        if act == 'skip':
            raise SkipFile()
        if act == 'stopfuture':
            raise StopFutureHandlers()
        if act == 'stop':
            raise StopUpload(connection_reset=False)
        if act == 'reset':
            raise StopUpload(connection_reset=True)
        if act == 'error':
            raise RuntimeError('handler failed')

    def act(self, when):
        for n, w, what in self.spec.get('acts', []):
            if w == when and (n is None or n == self.nfile):
                return what
        return None

    def receive_data_chunk(self, raw_data, start):
        self.log('data', raw_data, start)
        self.data += raw_data
        act = self.act('data')
        if act == 'skip':
            raise SkipFile()
        if act == 'stop':
            raise StopUpload(connection_reset=False)
        if act == 'reset':
            raise StopUpload(connection_reset=True)
        if act == 'error':
            raise RuntimeError('handler failed')
        if act == 'consume':
            return None
        if act == 'upper':
            return raw_data.replace(b'a', b'bb')
        return raw_data

    def file_complete(self, file_size):
        self.log('complete', file_size)
        act = self.act('complete')
        if act in ('obj', 'empty'):
            return (Obj if act == 'obj' else Empty)('%d/%d' % (self.index, self.nfile), self.data)
        return None

    def upload_complete(self):
        self.log('end')
        return self.spec.get('end')


class Unwanted(FileUploadHandler, object):
    """Must not be used where others were set on the request."""

    def __init__(self, request=None):
        raise RuntimeError('a handler that was replaced is used')


for _i in range(6):
    _n = 'H%d' % _i
    globals()[_n] = type(_n, (Base,), {'index': _i})


# The library's own handlers, asking for a configurable chunk size.
from request_parser.files.uploadhandler import (
    ConvenientFileUploadHandler, MemoryFileUploadHandler, TemporaryFileUploadHandler,
)

CHUNK = [64 * 1024]


def set_chunk(n):
    CHUNK[0] = n


class ConvC(ConvenientFileUploadHandler):
    chunk_size = property(lambda self: CHUNK[0])


class MemC(MemoryFileUploadHandler):
    chunk_size = property(lambda self: CHUNK[0])


class TempC(TemporaryFileUploadHandler):
    chunk_size = property(lambda self: CHUNK[0])
