"""Drawing to SVG."""
import html
from typing import Callable, Optional
from r_u_sure.rendering import rendering
from r_u_sure.rendering.rendering import BoundingBox, Point, PointDirection
from r_u_sure.rendering.svg_renderer import SVGRenderer


def Point__shift(self: Point, dx: float = 0.0, dy: float = 0.0) -> Point:
  return Point(x=self.x + dx, y=self.y + dy)


def BoundingBox__from_boundary(cls, left: float, top: float, right: float, bottom: float) -> BoundingBox:
  return BoundingBox(left, top, right - left, bottom - top)


def BoundingBox__right(self: BoundingBox) -> float:
  return self.left + self.width


def BoundingBox__bottom(self: BoundingBox) -> float:
  return self.top + self.height


def BoundingBox__horizontal_center(self: BoundingBox) -> float:
  return self.left + self.width / 2


def BoundingBox__vertical_center(self: BoundingBox) -> float:
  return self.top + self.height / 2


def BoundingBox__center_point(self: BoundingBox) -> Point:
  return Point(self.left + self.width / 2, self.top + self.height / 2)


def BoundingBox__point_within(self: BoundingBox, toward_right: float, toward_bottom: float) -> Point:
  return Point(self.left + toward_right * self.width, self.top + toward_bottom * self.height)


def BoundingBox__union(self: BoundingBox, other: BoundingBox) -> BoundingBox:
  left = min(self.left, other.left)
  top = min(self.top, other.top)
  right = max(self.left + self.width, other.left + other.width)
  bottom = max(self.top + self.height, other.top + other.height)
  return BoundingBox(left=left, top=top, width=right - left, height=bottom - top)


def point_interpolator(first: Point, second: Point) -> Callable[[float, float], Point]:
  def at(x: float, y: float) -> Point:
    return Point(first.x + x * (second.x - first.x), first.y + y * (second.y - first.y))
  return at


def SVGRenderer____init__(self: SVGRenderer, with_default_styles: bool = True, with_hover_text: bool = True):
  self.items = []
  self.styles = [SVGRenderer.BASIC_STYLES] + ([SVGRenderer.DEFAULT_STYLES] if with_default_styles else [])
  self.bounds = None
  self.with_hover_text = with_hover_text


def SVGRenderer___update_bounds(self: SVGRenderer, item_bounds: BoundingBox):
  if self.bounds is None:
    self.bounds = item_bounds
  else:
    self.bounds = self.bounds.union(item_bounds)


def SVGRenderer___render_hover_title(self: SVGRenderer, hover_text: Optional[str]) -> str:
  if hover_text is not None and self.with_hover_text:
    return '<title>' + html.escape(hover_text) + '</title>'
  return ''


def SVGRenderer__label_in_box(
    self: SVGRenderer, bounds: BoundingBox, text: str, hover_text: str, text_size: float, style_tags: tuple[str, ...] = ()):
  self._update_bounds(bounds)
  x = bounds.center_point.x
  y = bounds.center_point.y
  lines = text.split('\n')
  top = y - text_size * (len(lines) - 1) / 2
  texts = []
  for i, line in enumerate(lines):
    texts.append(f'<text font-size={text_size} x="{x}" y="{top + text_size * i}" class="label_in_box">{html.escape(line)}</text>')
  tags = ' '.join(style_tags)
  body = '\n'.join(texts)
  self.items.append(f'''
      <g>
        {self._render_hover_title(hover_text)}
        <rect x="{bounds.left}" y="{bounds.top}"
              width="{bounds.width}" height="{bounds.height}"
              class="{tags} label_in_box"
              />
        {body}
      </g>
    ''')


def SVGRenderer__label_at_point(
    self: SVGRenderer, point: Point, text: str, text_size: float, direction: PointDirection, hover_text: Optional[str] = None,
    padding_fraction: float = 0.5, style_tags: tuple[str, ...] = ()):
  self._update_bounds(BoundingBox(point.x, point.y, 0, 0))
  lines = text.split('\n')
  n = len(lines)
  D = PointDirection
  pad = padding_fraction * text_size
  if direction in (D.UP, D.UP_LEFT, D.UP_RIGHT):
    dy = (n + 0.5) * text_size - pad
  elif direction in (D.DOWN, D.DOWN_LEFT, D.DOWN_RIGHT):
    dy = 0.5 * text_size + pad
  elif direction in (D.LEFT, D.RIGHT):
    dy = text_size * (n - 1) / 2
  elif direction == D.AROUND:
    dy = (-((n + 1) // 2) + 0.5) * text_size
  else:
    raise ValueError('Invalid direction')
  if direction in (D.LEFT, D.UP_LEFT, D.DOWN_LEFT):
    anchor, dx = 'end', -pad
  elif direction in (D.RIGHT, D.UP_RIGHT, D.DOWN_RIGHT):
    anchor, dx = 'start', pad
  else:
    anchor, dx = 'middle', 0
  texts = []
  for i, line in enumerate(lines):
    texts.append(f'<text font-size={text_size} x="{point.x + dx}" y="{point.y + dy + text_size * i}" '
                 f'style="dominant-baseline: middle; text-anchor: {anchor};" '
                 f'class="{" ".join(style_tags)} label_at_point">{html.escape(line)}</text>')
  body = '\n'.join(texts)
  self.items.append(f'''
      <g>
        {self._render_hover_title(hover_text)}
        {body}
      </g>
    ''')


def SVGRenderer__container(self: SVGRenderer, bounds: BoundingBox, style_tags: tuple[str, ...] = ()):
  self._update_bounds(bounds)
  self.items.append(f'''
      <g>
        <rect x="{bounds.left}" y="{bounds.top}"
              width="{bounds.width}" height="{bounds.height}"
              class="{' '.join(style_tags)} container"
              />
      </g>
    ''')


def SVGRenderer__line(self: SVGRenderer, points: list[Point], hover_text: Optional[str] = None, style_tags: tuple[str, ...] = ()):
  left = min(p.x for p in points)
  right = max(p.x for p in points)
  top = min(p.y for p in points)
  bottom = max(p.y for p in points)
  self._update_bounds(BoundingBox.from_boundary(left, top, right, bottom))
  path = [f'M {points[0].x} {points[0].y}']
  for p in points[1:]:
    path.append(f'L {p.x} {p.y}')
  self.items.append(f'''
      <g>
        {self._render_hover_title(hover_text)}
        <path d="{' '.join(path)}" class="{' '.join(style_tags)} line"
              marker-start="url(#arrowstart)"
              marker-end="url(#arrowend)"/>
      </g>
    ''')


def SVGRenderer__dot(self: SVGRenderer, point: Point, hover_text: Optional[str] = None, style_tags: tuple[str, ...] = ()) -> None:
  self._update_bounds(BoundingBox(point.x, point.y, point.x - point.x, point.y - point.y))
  self.items.append(f'''
      <g>
        {self._render_hover_title(hover_text)}
        <circle cx="{point.x}" cy="{point.y}" class="{' '.join(style_tags)} dot"/>
      </g>
    ''')


def SVGRenderer__group(self: SVGRenderer, hover_text: Optional[str] = None, style_tags: tuple[str, ...] = ()):
  self.items.append(f'''
      <g class="{' '.join(style_tags)}">
        {self._render_hover_title(hover_text)}
    ''')
  yield
  self.items.append('''
      </g>
    ''')


def SVGRenderer__configure_style_css(self: SVGRenderer, style_string: str):
  self.styles.append(style_string)


def SVGRenderer__add_custom_svg(self: SVGRenderer, svg_source: str) -> None:
  self.items.append(svg_source)


def SVGRenderer__to_html(self: SVGRenderer, padding: float = 0.0) -> str:
  bounds = self.bounds or BoundingBox(0, 0, 10, 10)
  left = bounds.left - padding
  top = bounds.top - padding
  width = bounds.left + bounds.width + padding - left
  height = bounds.top + bounds.height + padding - top
  styles = '\n'.join(self.styles)
  items = '\n'.join(self.items)
  return f'''
      <style type="text/css">
        {styles}
      </style>
      <svg class="rendered_graph" viewBox="{left} {top} {width} {height}">
      <defs>
        <marker id="arrowend"
            markerWidth="5" markerHeight="4"
            refX="5" refY="2"
            orient="auto" markerUnits="strokeWidth"
        >
          <path d="M0,0 L0,4 L5,2 z" fill="black" />
        </marker>
        <marker id="arrowstart"
            markerWidth="5" markerHeight="5"
            refX="0" refY="2"
            orient="auto" markerUnits="strokeWidth"
        >
          <circle cx="1.5" cy="2" r=1.5 fill="black" />
        </marker>
      </defs>
        <g>
          {items}
        </g>
      </svg>
    '''
