"""Stand-in for google.api_core.page_iterator: listing a bucket with a delimiter."""
import world


class HTTPIterator:
    def __init__(self, client=None, api_request=None, path=None, item_to_value=None, items_key="items", page_token=None, page_size=None, max_results=None, extra_params=None, **kw):
        p = extra_params or {}
        bucket = path.split("/")[2]
        items, prefixes = world.W.gcs_list(bucket, p.get("prefix", ""), p.get("delimiter"))
        self.items = [item_to_value(self, x) for x in (prefixes if items_key == "prefixes" else [{"name": n} for n in items])]
        self.prefixes = set(prefixes)

    def __iter__(self):
        return iter(self.items)
