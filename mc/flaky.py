"""A storage backend that fails at a chosen call."""
from valori.exceptions import StorageError
from valori.storage.base import StorageBackend

CALLS = ("store_vector", "update_vector", "delete_vector", "retrieve_vector", "list_vectors")


class Flaky(StorageBackend):
    def __init__(self, real):
        super().__init__({})
        self.real = real
        self.disarm()

    def arm(self, call, at, mode):
        self.call, self.at, self.mode, self.n, self.fired = call, at, mode, 0, False

    def disarm(self):
        self.call, self.at, self.mode, self.n, self.fired = None, None, None, 0, False

    def _go(self, call, *a):
        if call == self.call:
            i = self.n
            self.n += 1
            if i == self.at or (self.mode == "stuck" and i > self.at):
                self.fired = True
                if self.mode == "false":
                    return False if call not in ("retrieve_vector", "list_vectors") else None
                if self.mode == "late":              # done, but reported as failed
                    getattr(self.real, call)(*a)
                if self.mode == "oserror":
                    raise OSError(5, "injected")
                raise StorageError("injected")
        return getattr(self.real, call)(*a)

    def initialize(self):
        self.real.initialize()
        self._initialized = True

    def store_vector(self, id, vector, metadata=None):
        return self._go("store_vector", id, vector, metadata)

    def update_vector(self, id, vector, metadata=None):
        return self._go("update_vector", id, vector, metadata)

    def delete_vector(self, id):
        return self._go("delete_vector", id)

    def retrieve_vector(self, id):
        return self._go("retrieve_vector", id)

    def list_vectors(self, limit=None):
        return self._go("list_vectors", limit)

    def get_stats(self):
        return self.real.get_stats()

    def close(self):
        self.real.close()
        self._initialized = False
