"""Preview in notebooks."""
import base64

PREFIX = '<img src="data:image/png;base64, '


def preview_images(slide, format):
    if format not in ("svg", "png"):
        raise Exception("format")
    units = slide.slides.render(output=None, return_units=format == "svg", select_slides=[slide], export_type=format, prune_cache=False)
    if format == "svg":
        return [unit.svg for unit in units]
    images = []
    for path in units:
        with open(path, "rb") as f:
            images.append(PREFIX + str(base64.encodebytes(f.read()).decode()) + '" />')
    return images


def preview(slide):
    from elsie.render.jupyter import render_slide_html
    return render_slide_html(slide)


def preview_of_box(box):
    from elsie.render.jupyter import render_slide_html
    return render_slide_html(box.slide)


def show_fragment(document, state, max_step, slide_id):
    """Shows the active fragment only and adapts the buttons."""
    scope = "." + str(slide_id) + " "
    document.querySelector(scope + ".elsie-next").disabled = state.active >= max_step
    document.querySelector(scope + ".elsie-previous").disabled = state.active <= 1
    document.querySelector(scope + ".elsie-current-step").innerText = "Fragment: " + str(state.active)
    for item in document.querySelectorAll(scope + ".elsie-step"):
        item.style.display = "none"
    document.querySelector(scope + ".elsie-step.step-" + str(state.active)).style.display = "block"


def main(document, state, max_step, slide_id):
    scope = "." + str(slide_id) + " "
    state.active = 1
    document.querySelector(scope + ".elsie-next").addEventListener("click", "next")
    document.querySelector(scope + ".elsie-previous").addEventListener("click", "previous")
    show_fragment(document, state, max_step, slide_id)


def on_next(document, state, max_step, slide_id):
    if state.active + 1 <= max_step:
        state.active = state.active + 1
    show_fragment(document, state, max_step, slide_id)


def on_previous(document, state, max_step, slide_id):
    if state.active - 1 >= 1:
        state.active = state.active - 1
    show_fragment(document, state, max_step, slide_id)
