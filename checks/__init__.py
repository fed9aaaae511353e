"""Registry: property id -> check function."""
REG = {}
SHARDED = {}        # checks whose cases are dealt out to processes


def prop(pid, shards=0):
    def d(f):
        REG[pid] = f
        if shards: SHARDED[pid] = shards
        return f
    return d


from checks import app_main, app_cli, app_clean, tasks_tree, tasks_resolve, tasks_gradient, tasks_dupl, tasks_visible, tasks_transform, tasks_paths, tasks_attrs, tasks_needless, tasks_coords, tasks_group, tasks_all   # noqa
