class PatchType:
    pass


class BasicPatch(PatchType):
    content_type = "application/json"

    def __init__(self, data=None, permissions=None):
        self.data, self.permissions = data, permissions


class MergePatch(BasicPatch):
    content_type = "application/merge-patch+json"
