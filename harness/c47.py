"""C47 plots"""
import math
import os
from anytree import NodeMixin
import anytree.dotexport
from bokeh.plotting import Figure
from shapely.geometry import Point, LineString, LinearRing, Polygon, MultiPoint, MultiLineString, MultiPolygon, GeometryCollection
from crowddynamics import visualizations as vis
from crowddynamics.core.steering.quickest_path import meshgrid
from crowddynamics.simulation.field import Field
from harness.c42 import environment, box, agree
from symx import stubs
from symx.reg import harness


@harness(configs=[dict(n=n, m=m) for n, m in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1)]], thorough=[dict(n=n, m=m) for n in (1, 2, 3) for m in (1, 2, 3)],
         bounds='up to three x and y coordinates anywhere (also all equal), any margin in [0, 2], four aspect ratios, three figure sizes')
def aspect(S, n, m):
    x = [S.real('x%d' % i, -9, 9) for i in range(n)]
    y = [S.real('y%d' % i, -9, 9) for i in range(m)]
    w, h = S.choice('size', [(600, 600), (800, 400), (300, 1200)])
    fig = Figure(plot_width=w, plot_height=h)
    kw = {}
    if S.branch(S.bool('aspect?')):
        kw['aspect'] = S.choice('aspect', [0.5, 2, 1.25])
    if S.branch(S.bool('margin?')):
        kw['margin'] = S.real('margin', 0, 2)
    vis.set_aspect(fig, x, y, **kw)
    r, margin = kw.get('aspect', 1) * (w / h), kw.get('margin', 0.1)
    x0, x1, y0, y1 = fig.x_range.start, fig.x_range.end, fig.y_range.start, fig.y_range.end
    S.check('aspect ratio', S.eq(x1 - x0, r * (y1 - y0)))
    for name, v, a, b in (('x', x, x0, x1), ('y', y, y0, y1)):
        lo, hi = S.min(v), S.max(v)
        S.check(name + ' centred', S.eq(a + b, lo + hi))
        S.check(name + ' all data with the margin', S.le((hi - lo) * (1 + 2 * margin), b - a))
        S.check(name + ' visible', S.lt(a, b))
    lo = lambda v: S.min(v)
    spread = [(S.max(v) - lo(v)) * (1 + 2 * margin) for v in (x, y)]
    S.check('no wider than needed', S.or_(S.eq(x1 - x0, spread[0]), S.eq(y1 - y0, spread[1]),
                                          S.and_(S.eq(spread[0], 0), S.eq(x1 - x0, 1.0)), S.and_(S.eq(spread[1], 0), S.eq(y1 - y0, 1.0))))


def pt(S, n):
    return (S.real(n + 'x', -9, 9), S.real(n + 'y', -9, 9))


def tri(S, n, hole=False):
    a, b = pt(S, n)
    return Polygon([(a, b), (a + 8, b), (a, b + 8)], [[(a + 1, b + 1), (a + 2, b + 1), (a + 1, b + 2)]] if hole else None)


PARTS = {
    'point': lambda S, n: Point(pt(S, n)),
    'line': lambda S, n: LineString([pt(S, n), pt(S, n + 'b'), (0.0, 1.0)]),
    'ring': lambda S, n: LinearRing([pt(S, n), (20.0, 1.0), (12.0, 20.0)]),
    'polygon': tri,
    'holes': lambda S, n: tri(S, n, True),
    'points': lambda S, n: MultiPoint([Point(pt(S, n)), Point(pt(S, n + 'b'))]),
    'lines': lambda S, n: MultiLineString([LineString([pt(S, n), (3.0, 3.0)]), LineString([(1.0, 3.0), pt(S, n + 'b')])]),
    'polygons': lambda S, n: MultiPolygon([tri(S, n), tri(S, n + 'b')]),
}


def leaves(g):
    if hasattr(g, 'geoms'):
        return [l for p in g.geoms for l in leaves(p)]
    if isinstance(g, Point):
        return [('circle', list(g.coords))]
    if isinstance(g, Polygon):
        return [('patch', list(g.exterior.coords))]
    return [('line', list(g.coords))]


def seq(v):
    return list(v) if hasattr(v, '__len__') or hasattr(v, '__iter__') else [v]


def shape_of(S, glyph):
    kind, k = glyph
    return kind, list(zip(seq(k['x']), seq(k['y'])))


def drawn(S, glyphs, geoms):
    """geoms: [(geometry, style)]"""
    want = [(kind, pts, style) for g, style in geoms for kind, pts in leaves(g)]
    S.check('every part once', len(glyphs) == len(want))
    for glyph, (kind, pts, style) in zip(glyphs, want):
        k, p = shape_of(S, glyph)
        S.check('kind of glyph', k == kind)
        S.check('number of points', len(p) == len(pts))
        S.check('drawn at its coordinates', S.and_(*[S.and_(S.eq(a[0], b[0]), S.eq(a[1], b[1])) for a, b in zip(p, pts)]))
        if style is not None:
            S.check('style', glyph[1]['style'] == style)


@harness(configs=[dict(kind=k) for k in sorted(PARTS)] + [dict(kind='nested'), dict(kind='large')], bounds='every kind of geometry, nested collections, any coordinates; other values are refused')
def geometries(S, kind):
    fig = Figure()
    style = dict(alpha=S.choice('alpha', [0.5, 1.0]), color='olive') if S.branch(S.bool('style')) else {}
    if kind == 'nested':
        ks = [S.choice('part%d' % i, ['point', 'ring', 'holes', 'lines', 'polygons']) for i in range(3)]
        parts = [PARTS[k](S, 'g%d' % i) for i, k in enumerate(ks)]
        g = GeometryCollection([parts[0], GeometryCollection([parts[1]])] if S.branch(S.bool('deep')) else parts)
    elif kind == 'large':
        parts = [[Point(0.5, i), LineString([(i, 0.5), (0.0, 1.0)]), PARTS['holes'](S, 'h%d' % i)][i % 3] for i in range(13)]
        g = GeometryCollection(parts[:11] + [GeometryCollection(parts)] + parts[:2])
    else:
        g = PARTS[kind](S, 'g')
    if style and S.branch(S.bool('legend')):
        style['legend'] = 'parts'
    vis.add_geom(fig, g, **style)
    drawn(S, fig.glyphs, [(g, style)])
    S.check('others are refused', S.raises(TypeError, lambda: vis.add_geom(fig, [g])) is not None)
    S.check('nothing drawn for them', len(fig.glyphs) == len(leaves(g)))


@harness(configs=[dict(nx=nx, ny=ny) for nx, ny in [(2, 3), (4, 3), (3, 5)]], bounds='grids of up to 4x5 nodes at any place, arrows at every first to third node, the direction at one node and all distances symbolic')
def maps(S, nx, ny):
    step = 0.5
    x0, y0 = S.choice('corner', [(0.0, 0.0), (-2.0, 1.5), (3.0, -4.0)])
    grid = meshgrid(step, x0, y0, x0 + (nx - 1) * step - 0.125, y0 + (ny - 1) * step - 0.125)
    rows, cols = grid.shape
    d = S.np.array([[S.real('d%d_%d' % (i, j), 0, 9) for j in range(cols)] for i in range(rows)])
    fig = Figure()
    style = dict(palette='Viridis256') if S.branch(S.bool('palette')) else {}
    vis.add_distance_map(fig, grid, d, **style)
    (kind, k), = fig.glyphs
    S.check('one image', kind == 'image')
    S.equal('image', k['image'], d)
    minx, miny, maxx, maxy = grid.bounds
    S.check('image at the corner of the grid', S.and_(S.eq(k['x'], minx), S.eq(k['y'], miny)))
    S.check('image as large as the grid', S.and_(S.eq(k['dw'], maxx - minx), S.eq(k['dh'], maxy - miny)))
    S.check('palette', k['style'].get('palette') == style.get('palette', 'Greys256'))

    fig = Figure()
    free = S.choice('free', [(0, 0), (2, 2)])
    u = [[(S.real('u', -1, 1) if (i, j) == free else 0.5 - 0.125 * i + 0.0625 * j) for j in range(cols)] for i in range(rows)]
    v = [[(S.real('v', -1, 1) if (i, j) == free else 0.25 * (-1) ** (i + j) - 0.03125 * i * j) for j in range(cols)] for i in range(rows)]
    kw, freq = {}, 2
    if S.branch(S.bool('freq?')):
        freq = kw['freq'] = S.choice('freq', [1, 2, 3])
    if S.branch(S.bool('color')):
        kw['line_color'] = 'red'
    vis.add_direction_map(fig, grid, (S.np.array(u), S.np.array(v)), **kw)
    glyphs = dict(fig.glyphs)
    S.check('arrows have a shaft and a head', sorted(k for k, _ in fig.glyphs) == ['segment', 'triangle'])
    at = [(i, j) for i in range(0, rows, freq) for j in range(0, cols, freq)]
    s, t = glyphs['segment'], glyphs['triangle']
    S.check('style', s['style'] == ({'line_color': 'red'} if 'line_color' in kw else {}))
    S.check('one arrow for each node', len(seq(s['x0'])) == len(at) and len(seq(t['x'])) == len(at))
    for n, (i, j) in enumerate(at):
        px, py = x0 + j * step, y0 + i * step
        S.check('starts at the node', S.and_(S.eq(s['x0'][n], px), S.eq(s['y0'][n], py)))
        ex, ey = px + 0.9 * freq * step * u[i][j], py + 0.9 * freq * step * v[i][j]
        S.check('points along the direction', S.and_(S.eq(s['x1'][n], ex), S.eq(s['y1'][n], ey)))
        S.check('head at the end', S.and_(S.eq(t['x'][n], ex), S.eq(t['y'][n], ey)))
        S.check('head along the direction', S.eq(t['angle'][n], S.np.arctan2(v[i][j], u[i][j]) - math.pi / 2))


@harness(bounds='four file names with and without extension or directories; any of show and save; bodies that fail')
def figures(S):
    name, want, title = S.choice('file', [('plot.html', 'plot.html', 'plot'), ('plot', 'plot.html', 'plot'), ('some/dir.x/field.html', 'some/dir.x/field.html', 'field'),
                                          ('some/plot.png', 'some/plot.png.html', 'plot')])
    show, save, fails = S.branch(S.bool('show')), S.branch(S.bool('save')), S.branch(S.bool('fails'))
    before = len(stubs.LOG)
    seen = []

    def body():
        with vis.figure(name, show=show, save=save, plot_width=300) as fig:
            seen.append((fig, list(stubs.LOG[before:])))
            if fails:
                raise ValueError('body')
    e = S.raises(ValueError, body)
    S.check('failures are passed on', (e is not None) == fails)
    fig, log = seen[0]
    S.check('options', fig.plot_width == 300)
    S.check('output file and title, once and first', log == [('output_file', want, title)])
    S.check('shown and saved as asked, at the end', sorted(k for k, *_ in stubs.LOG[before + 1:]) == ([] if fails else sorted(['show'] * show + ['save'] * save)))
    S.check('the same figure', all(e[1] is fig for e in stubs.LOG[before + 1:]))


def scene(S, obstacles):
    f = Field()
    f.name = 'scene' if hasattr(Field, 'name') else None
    f.domain = box(0.0, 0.0, 4.0, 3.0)
    f.targets = [box(3.0, 0.0, 4.0, 1.0), LineString([(0.0, 2.0), (0.0, 3.0)])]
    f.targets = S.choice('targets', [f.targets[:1], f.targets, f.targets[:1] * 2 + f.targets[1:]])
    f.spawns = [box(0.0, 0.0, 1.0, 1.0), box(2.0, 2.0, 3.0, 3.0)][:S.choice('spawns', [0, 1, 2])]
    if obstacles:
        f.obstacles = LineString([(2.0, 0.0), (2.0, 1.0)])
    return f


@harness(configs=[dict(obstacles=o) for o in (0, 1)], bounds='fields with one or two targets (one of them also given twice), up to two spawns, with and without obstacles')
def fields(S, obstacles):
    environment(S, [])
    f = scene(S, obstacles)
    fig = Figure()
    vis.add_field(fig, f)
    parts = [f.domain] + list(f.spawns) + list(f.targets) + ([f.obstacles] if obstacles else [])
    drawn(S, fig.glyphs, [(g, None) for g in parts])
    before = len(stubs.LOG)
    vis.plot_field(f, step=1.0, radius=0.25, strength=0.5, plot_width=500)
    shown = [e[1] for e in stubs.LOG[before:] if e[0] == 'show']
    S.check('shown once', len(shown) == 1)
    fig = shown[0]
    S.check('options', fig.plot_width == 500)
    geoms = [g for g in fig.glyphs if g[0] in ('circle', 'line', 'patch')]
    drawn(S, geoms, [(g, None) for g in parts])
    labels = [g[1]['style'].get('legend') for g in geoms]
    S.check('labels', labels == ['domain'] + ['spawn_%d' % i for i in range(len(f.spawns))] + ['target_%d' % i for i in range(len(f.targets))] + ['obstacles'] * obstacles)
    S.check('ranges contain the domain', S.and_(S.le(fig.x_range.start, 0.0), S.le(4.0, fig.x_range.end), S.le(fig.y_range.start, 0.0), S.le(3.0, fig.y_range.end)))
    mesh, dmap, dirs = f.navigation_to_target('closest', 1.0, 0.25, 0.5)
    image = [k for g, k in fig.glyphs if g == 'image']
    S.check('one distance map', len(image) == 1)
    data, mask = S.np.ma.getdata(dmap), S.np.ma.getmaskarray(dmap)
    rows, cols = mesh.shape
    S.check('distance map', S.and_(*[S.eq(image[0]['image'][i, j], 1.0 if bool(mask[i, j]) else data[i, j]) for i in range(rows) for j in range(cols)]))
    S.check('one direction map', len([1 for g, k in fig.glyphs if g == 'segment']) == 1)


class Node(NodeMixin):
    def __init__(self, name, parent=None):
        self.name, self.parent = name, parent


@harness(bounds='trees of up to four nodes, rendered from any node, to three kinds of files')
def trees(S):
    n = S.choice('nodes', [1, 2, 3, 4])
    nodes = [Node('n0')]
    for i in range(1, n):
        nodes.append(Node('n%d' % i, nodes[S.choice('parent%d' % i, list(range(i)))]))
    start = nodes[S.choice('start', list(range(n)))]
    done = []
    old = anytree.dotexport.RenderTreeGraph.to_picture
    anytree.dotexport.RenderTreeGraph.to_picture = lambda self, filename: done.append((self.node, filename))
    d = S.scratch.new()
    ext = S.choice('ext', ['.png', '.dot', '.txt', ''])
    path = os.path.join(d, 'some.tree' + ext)
    try:
        e = S.raises(Exception, lambda: vis.render_tree(start, path))
    finally:
        anytree.dotexport.RenderTreeGraph.to_picture = old
    S.check('other files are refused', (e is not None) == (ext not in ('.png', '.dot')))
    S.check('picture of the whole tree', [(a.name, b) for a, b in done] == ([('n0', path)] if ext == '.png' else []))
    S.check('files', sorted(os.listdir(d)) == (['some.tree.dot'] if ext == '.dot' else []))
    if ext == '.dot':
        with open(path) as f:
            text = f.read()
        S.check('every node', all('"n%d";' % i in text for i in range(n)))
        S.check('every edge', all('"%s" -> "%s"' % (x.parent.name, x.name) in text for x in nodes[1:]))
