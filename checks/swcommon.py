"""Sweeper input shared by the sweep, solver and acceleration checks"""
import geo
from geocommon import *
from x03 import withmats, slim
from x05 import nregs

LS = [2, 4, 6, 8]


def bclist(g):
    """conditions in the order of the sides: east north west south top bottom"""
    return [g["bc"][k] for k in ("east", "north", "west", "south", "top", "bottom")]


def quad(r, small=True, product=.4):
    if r.random() < product:
        return '<ang_quad type="cg" n_azimuthal="%d" n_polar="%d"/>' % (r.choice([1, 2, 3, 4]), r.choice([1, 2, 3]))
    return '<ang_quad type="ls" order="%d"/>' % r.choice(LS[:2] if small else LS)


def sn_xml(r, n_inner=1, eq=None, ax=None, upd=None, q=None, more=""):
    eq = eq or "dd"
    ax = ax or "dd"
    upd = r.choice(["gs", "jacobi"]) if upd is None else upd
    return '<sweeper type="sn" n_inner="%d" equation="%s" axial="%s" boundary_update="%s" %s>%s</sweeper>' % (
        n_inner, eq, ax, upd, more, q or quad(r))


def moc_quad(r):
    if r.random() < .3:
        return '<ang_quad type="ls" order="%d"/>' % r.choice([2, 4])
    return '<ang_quad type="cg" n_azimuthal="%d" n_polar="%d"/>' % (r.choice([1, 2, 3]), r.choice([1, 2]))


def moc_xml(r, n_inner=1, upd=None, q=None, spacing=None, more="", raymore=""):
    upd = r.choice(["gs", "jacobi"]) if upd is None else upd
    return '<sweeper type="moc" n_inner="%d" boundary_update="%s" %s><rays spacing="%s" %s/>%s</sweeper>' % (
        n_inner, upd, more, spacing or r.choice(["0.3", "0.2", "0.15"]), raymore, q or moc_quad(r))
