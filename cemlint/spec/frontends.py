"""What the front ends register, and what the viewer, the plotter and the installers hand on (C26)."""
import glob
import os

from compas.artists import Artist
from compas_ghpython.components import install_userobjects
from compas_ghpython.components import uninstall_userobjects
from compas_view2.objects import Object

from compas_cem import __all_plugins__
from compas_cem.diagrams import FormDiagram
from compas_cem.diagrams import TopologyDiagram
from compas_cem.ghpython.artists import FormArtist as GhForm
from compas_cem.ghpython.artists import TopologyArtist as GhTopology
from compas_cem.plotters.formartist import FormArtist
from compas_cem.plotters.topologyartist import TopologyArtist
from compas_cem.viewers.formobject import FormDiagramObject
from compas_cem.viewers.topologyobject import TopologyDiagramObject
from compas_cem.viewers.viewer import Viewer

# where the package ships its Grasshopper components
COMPONENTS = "src/compas_cem/ghpython/components/ghuser"


def plotter():
    Artist.register(TopologyDiagram, TopologyArtist, context="Plotter")
    Artist.register(FormDiagram, FormArtist, context="Plotter")


def grasshopper():
    Artist.register(TopologyDiagram, GhTopology, context="Grasshopper")
    Artist.register(FormDiagram, GhForm, context="Grasshopper")


def viewer():
    Object.register(TopologyDiagram, TopologyDiagramObject)
    Object.register(FormDiagram, FormDiagramObject)


# ------------------------------------------------------------------ plugins
def announced():
    return list(__all_plugins__)


def installable():
    return ['compas_cem']


def after_install(packages):
    if 'compas_cem' not in packages:
        return []
    done = install_userobjects(COMPONENTS)
    return [('compas_cem', 'Installed {} GH User Objects'.format(len(done)), True)]


def after_uninstall(packages):
    if 'compas_cem' not in packages:
        return []
    names = [os.path.basename(path) for path in glob.glob(os.path.join(COMPONENTS, '*.ghuser'))]
    done = uninstall_userobjects(names)
    failed = [item[0] for item in done if not item[1]]
    note = 'and {} failed to uninstall'.format(len(failed)) if failed else ''
    return [('compas_cem', 'Uninstalled {} GH User Objects {}'.format(len(done), note), True)]


# ------------------------------------------------------------------ viewer
def add_diagram(viewer, diagram, value):
    return viewer.add(diagram, opacity=value)


def add_diagram_is(viewer, diagram, value):
    return super(Viewer, viewer).add(diagram, opacity=value, viewer=viewer)


def add_diagram_plain(viewer, diagram):
    return viewer.add(diagram)


def add_diagram_plain_is(viewer, diagram):
    return super(Viewer, viewer).add(diagram, viewer=viewer)


def add_other(viewer, value):
    return viewer.add([value], opacity=value)


def add_other_is(viewer, value):
    return super(Viewer, viewer).add([value], opacity=value)
