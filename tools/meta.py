#!/opt/venv/bin/python
"""Writes properties.jsonl, MANIFEST.json and the property chapter of DESIGN.md from one table."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
TESTED = ('The five tests that pass parse a few texts and check single values of small helpers; ')

# id, title, statement, over, quantifier, why, files, mechanism [(name, where)]
P = []


def prop(*a, **k):
    P.append((a, k))


IN, CF, HI, FA = 'inputs', 'configurations', 'histories', 'fault_sequences'
OP, OPS, PA = 'hyvr/input/option_parsing.py', 'hyvr/input/options.py', 'hyvr/input/parameters.py'
OLD = 'hyvr/input/options_deprecated.py'
GEO = 'hyvr/geo/'
OUT = 'hyvr/postprocess/output.py'

prop('C01', 'List options are read as exactly the nested list that is written',
     'The value of a list option is the (possibly nested, up to three levels deep) list that its text denotes, whatever blanks '
     'and line breaks are put around items, commas and brackets, and numbers and names come back as the written items in the '
     'written order. Texts with unbalanced brackets, missing items or items of the wrong type are rejected and never read as '
     'some other list.',
     [IN], 'for every text of a list option', TESTED + 'lists of two levels with a handful of layouts, and no malformed text.',
     [OP], [('parsing of bracketed lists', OP)])
prop('C02', 'List options have the documented shape or are rejected',
     'An option that is declared with a shape (fixed lengths, "any length", the length of another option, or one length per item '
     'of another option, nested up to three levels) is accepted exactly if its value has that shape. A single value stands for a '
     'list of that shape filled with it; every other mismatch is rejected, and accepted values are not changed, reordered, '
     'truncated or shared.',
     [IN, CF], 'for all declared shapes and all values given for them', TESTED + 'three shapes with matching values.',
     [OP], [('shape checks and expansion of scalars', OP)])
prop('C03', 'Scalar options: conversion, defaults, alternatives and validation',
     'A scalar option has the value that is written for it, converted to its type; if it is not given, its default; and if it is '
     'required and neither it nor one of its documented alternatives is given, the ini-file is rejected. Texts which are not of '
     'the type and values which fail the validation of the option are rejected.',
     [IN, CF], 'for all types, texts, defaults and subsets of given options', TESTED + 'one option per type.',
     [OP], [('parsing of sections and options', OP)])
prop('C04', 'The configuration of a model is the one its ini-file describes',
     'Every documented option of every section reaches the model with the written value (lists per stratum and element in the '
     'written order, facies names as positions in the list of hydrofacies), omitted options have their documented defaults, and '
     'settings of one element never reach another one. An ini-file that lacks a required option or section, names an unknown '
     'facies, geometry, structure, contact type or output, or lacks what its structure or output needs is rejected with an '
     'error before anything is generated.',
     [CF], 'for all ini-files', TESTED + 'no complete ini-file.',
     [OPS, PA], [('option tables', OPS), ('assembly of the configuration', PA)])
prop('C05', 'Old-format ini-files give the model of their translation to the new format',
     'An ini-file in the deprecated format is recognized and gives, with the same random numbers, the same grid, arrays, names '
     'and outputs as the ini-file obtained by the documented renaming of its options. Old options that are no longer supported '
     'are rejected instead of ignored.',
     [CF], 'for all old-format ini-files and random numbers', TESTED + 'no old-format file.',
     [OLD, PA], [('conversion of old options', PA)])
prop('C06', 'Existing results are replaced only on request, and then completely',
     'If the run directory exists and overwriting is not requested (the argument of the call decides, and the ini option if there '
     'is no argument), the run is refused and nothing on disk changes; the same holds for every ini-file that is rejected. If '
     'overwriting is requested, the run directory afterwards contains the new results only, while everything outside of it, '
     'including targets of links in it, is untouched.',
     [HI, CF], 'for all sequences of runs and user operations on a model directory', TESTED + 'nothing about directories.',
     [PA, 'hyvr/sim.py'], [('set-up of the run directory', PA)])
prop('C07', 'Results are stored where the ini-file says, and the backup reproduces the run',
     'The run directory is the subdirectory named by the run name (by default the name of the ini-file) of the model directory '
     '(by default that of the ini-file); it holds a backup of the ini-file and the requested files named after the run, for '
     'several realizations in one numbered subdirectory each, and nothing is created elsewhere. Running the backup again '
     '(with overwriting) uses the same directory and settings and gives the same model for the same random numbers.',
     [CF, HI], 'for all names, model directories, numbers of realizations and outputs', TESTED + 'nothing about result files.',
     [PA, 'hyvr/sim.py', OUT], [('choice of directories and backup', PA)])
prop('C08', 'The grid has the requested cells at the requested positions',
     'A model with lengths lx, ly, lz, spacings dx, dy, dz (dy and dz default to dx) and origin x0, y0, z0 has lx/dx by ly/dy '
     'by lz/dz cells, also if these quotients are not exact in floating point; cell i, j, k of every array is the one centred at '
     'x0 + (i+1/2) dx, y0 + (j+1/2) dy, z0 + (k+1/2) dz.',
     [CF], 'for all grids whose lengths are multiples of the spacings', TESTED + 'no grid.',
     [GEO + 'grid.py'], [('coordinates and number of cells', GEO + 'grid.py')])
prop('C09', 'Strata fill the domain between contacts that never cross',
     'The strata follow each other in the listed order from bottom to top, separated by their contacts (flat at the given level, '
     'or undulating around it); where contacts cross, the upper one counts and the strata in between vanish. The lowest and '
     'highest stratum extend to the limits of the domain, and every cell belongs to exactly one stratum, the one its '
     'centre lies in.',
     [CF, IN], 'for all sequences of contacts and all random surfaces', TESTED + 'single surfaces.',
     [GEO + 'model.py', GEO + 'contact_surface.py'], [('generation and clipping of contact surfaces', GEO + 'model.py')])
prop('C10', 'Every cell gets a complete and consistent set of values',
     'In every realization every cell has a stratum, an element, an element type, a facies and angles (and hydraulic parameters, '
     'positive conductivity, if requested). The element is one of the stratum, its type is an element type that is listed (with '
     'positive probability) for the stratum, objects belong to one element only, and facies and angles are among those which '
     'the ini-file allows for that owner.',
     [CF, IN], 'for all models and all sequences of random numbers', TESTED + 'no complete simulation.',
     ['hyvr/assign_points.py', GEO + 'model.py'], [('assignment of cells', 'hyvr/assign_points.py')])
prop('C11', 'Of several overlapping objects and elements the topmost one owns a cell',
     'A cell belongs to the topmost object that contains its centre: objects of upper elements and strata come before those of '
     'lower ones (which they may erode), and within an element the object that was deposited last, i.e. highest, comes '
     'first. The cell belongs to the background of an element if it lies within the contacts of the element and no '
     'object of it or of an element above contains it.',
     [CF], 'for all stacks of overlapping objects', TESTED + 'no overlapping objects.',
     ['hyvr/assign_points.py', GEO + 'ae_realization.py'], [('search from top to bottom', 'hyvr/assign_points.py')])
prop('C12', 'Sheets are slabs of the given thickness with parallel dipping beds',
     'A sheet element is filled from its top to its bottom contact by horizontal sheets of the given thickness (scaled by the size trend, '
     'the last one is cut off; thickness -1 means one sheet), each with its own facies, azimuth and dip. With '
     'dipping structure the sheet consists of parallel beds of the given distance which dip by the reported angle in the '
     'reported direction.',
     [CF, IN], 'for all thicknesses, trends, contacts, orientations and random draws', TESTED + 'no sheets.',
     [GEO + 'sheet.py', GEO + 'sheet_ae.py'], [('generation of sheets', GEO + 'sheet_ae.py'), ('membership', GEO + 'sheet.py')])
prop('C13', 'The cells of a trough are those inside its half ellipsoid',
     'A trough owns exactly the cells whose centres lie in the lower half of the ellipsoid with the given (scaled) length, width and depth around '
     'its centre, rotated by its paleoflow angle, and in periodic models also those in its copies displaced '
     'by the domain size. Cells at the base, below the lag height, get the lag facies with zero '
     'angles; all other cells get the values of the internal structure.',
     [CF, IN], 'for all positions, sizes, rotations, lags, grids', TESTED + 'no trough.',
     [GEO + 'trough.pyx', GEO + 'trough_ae.pyx'], [('membership of cells', GEO + 'trough.pyx')])
prop('C14', 'Internal structure of troughs: dipping beds, bulbs and bulb sets',
     'Troughs with dipping beds consist of parallel beds of the given distance that dip by the reported angle in the '
     'reported direction; a bulb has one facies and dips at most by the given maximum towards '
     'its axis, following the ellipsoid; bulb sets additionally change facies on ellipsoidal shells of the given distance. '
     'Massive and flat troughs are uniform, and the random structure draws one of the others.',
     [CF, IN], 'for all orientations, distances, rotations, sizes and draws', TESTED + 'no trough.',
     [GEO + 'trough.pyx', GEO + 'trough_ae.pyx', GEO + 'trough_utils.py'], [('facies and angles', GEO + 'trough.pyx')])
prop('C15', 'The cells of a channel are those inside its parabolic cross section',
     'A channel owns exactly the cells below its top whose centres lie within the parabola of the given (scaled) width and depth around the '
     'centreline point that is nearest to them, along the complete centreline, straight or meandering. Cells at the base, '
     'below the lag height, get the lag facies with zero angles.',
     [CF, IN], 'for all widths, depths, centrelines, grids, lags', TESTED + 'no channel.',
     [GEO + 'channel.pyx', GEO + 'channel_ae.pyx'], [('search for the nearest point of the centreline', GEO + 'channel.pyx')])
prop('C16', 'Internal structure of channels: massive fill and beds across the flow',
     'A massive channel has one facies and one dip; a channel with dipping structure consists of beds of the given distance along '
     'the centreline, inclined by its dip. The reported azimuth follows the local flow direction, and the dip is the drawn one.',
     [CF, IN], 'for all dips, distances, flow angles, meanders and draws', TESTED + 'no channel.',
     [GEO + 'channel.pyx', GEO + 'channel_ae.pyx'], [('facies and angles', GEO + 'channel.pyx')])
prop('C17', 'Neighbouring beds follow the table of alternating facies',
     'Every bed of a bedded object (sheet, trough, channel) has one facies of the list of the element; if a table of alternating '
     'facies is given, the facies of the next bed is one of those that the table lists for the facies of the previous bed, otherwise any '
     'of the list. An object without beds has one facies of the list. All listed alternatives can occur.',
     [CF, IN], 'for all facies lists, tables and draws', TESTED + 'no beds.',
     ['hyvr/utils.py', GEO + 'ae_realization.py'], [('choice of the facies of the layers', GEO)])
prop('C18', 'Background values: those of the element, otherwise those of the stratum',
     'A cell of the background of an element has the background facies, azimuth and dip that the section of the element gives, '
     'each of them independently replaced by that of its stratum if the section does not give it. Values of 0 count as given.',
     [CF], 'for all combinations of given and omitted values', TESTED + 'no background.',
     [GEO + 'ae_realization.py', GEO + 'stratum.py'], [('background values', GEO + 'ae_realization.py')])
prop('C19', 'Number and position of randomly placed troughs',
     'Troughs are placed on planes at the aggradation distance, from the mean level of the top of the element down to the buffer '
     '(a multiple of their depth) above the highest point of its bottom; the expected number per plane is the trough density times the area of the domain, and '
     'their centres are within the domain. If a migration is given, the troughs of a plane are those of the plane before, moved by '
     'the drawn migration.',
     [CF, IN], 'for all parameters and random draws', TESTED + 'no placement.',
     [GEO + 'trough_ae.pyx', GEO + 'trough_utils.py'], [('placement', GEO + 'trough_utils.py')])
prop('C20', 'Levels, starting points and centrelines of channels',
     'Channels are placed on levels at the aggradation distance, from the mean level of the top of the element down to the buffer (a multiple of their depth) '
     'above the mean level of its bottom, the given number on each; their centrelines start upstream at a drawn point and cross '
     'the domain in the flow direction, straight or with meanders that '
     'follow the autoregressive model with the given parameters. From level to level, starting points move by at most the given migration.',
     [CF, IN], 'for all parameters and random draws', TESTED + 'no centreline.',
     [GEO + 'channel_ae.pyx', GEO + 'channel_utils.py'], [('centrelines', GEO + 'channel_utils.py')])
prop('C21', 'Without internal heterogeneity every cell has the parameters of its facies',
     'If parameters are homogeneous, or heterogeneous only between facies, then conductivity, anisotropy ratio and porosity of '
     'every cell are exactly those of the facies that is stored for the cell, for any order of the facies list. If no hydraulic '
     'parameters are requested, none are generated.',
     [CF], 'for all models and orders of facies', TESTED + 'no hydraulic parameters.',
     [GEO + 'model.py'], [('hydraulic parameters', GEO + 'model.py')])
prop('C22', 'Internal heterogeneity has the requested moments in every unit',
     'With internal heterogeneity, ln(K) and porosity in the cells of a unit (the part of an object that has one facies, or the '
     'background of an element) are Gaussian fields with mean, variance and correlation lengths of the facies of the unit, '
     'whatever the other units are; different units and parameters are independent, and every cell is covered.',
     [CF, IN], 'for all models and random numbers', TESTED + 'no hydraulic parameters.',
     [GEO + 'model.py', 'hyvr/utils.py'], [('internal heterogeneity', GEO + 'model.py')])
prop('C23', 'Trends scale the cells they belong to, and only those',
     'A trend of conductivity or porosity multiplies the values by a factor that changes linearly between the two given '
     'values from the first to the last cell of the domain (in x, and in z from bottom to top); trends of an element type act '
     'on the cells of that type only, global ones on all cells, and several trends multiply.',
     [CF], 'for all subsets of trends and all models', TESTED + 'no trends.',
     [GEO + 'model.py'], [('trends', GEO + 'model.py')])
prop('C24', 'Conductivity tensors are aligned with the bedding',
     'The conductivity tensor of a cell is symmetric with the conductivity of the cell in all directions within the plane of the '
     'bedding that azimuth and dip describe, and the conductivity divided by the anisotropy ratio perpendicular to it.',
     [CF, IN], 'for all azimuths, dips, ratios and conductivities', TESTED + 'no tensors.',
     ['hyvr/optimized.py', GEO + 'model.py'], [('rotation of the tensors', 'hyvr/optimized.py')])
prop('C25', 'Random fields have mean zero and the requested covariance',
     'Random fields (of parameters, restricted to any set of cells, or of contacts between strata) have zero mean or the given '
     'level, and as their covariance the model (exponential for parameters, Gaussian for contacts) with the given variance and the given '
     'correlation length in every direction, made periodic over the box that contains the cells.',
     [CF, IN], 'for all grids, variances, lengths, selections', TESTED + 'no random fields.',
     ['hyvr/utils.py', GEO + 'contact_surface_utils.py'], [('spectral simulation', 'hyvr/utils.py')])
prop('C26', 'Data files hold exactly the generated arrays',
     'Files in the formats npz, pickle, mat, h5 and vtr hold the arrays of their realization with the right names, '
     'shapes and values, every value at the position of its cell; vtr files additionally describe the grid with its origin and spacing.',
     [CF], 'for all grids, models and lists of formats', TESTED + 'no files.',
     [OUT], [('writers', OUT)])
prop('C27', 'MODFLOW input describes the generated model',
     'The MODFLOW files, read by flopy, have the grid of the model (layers from top to bottom, spacings and levels) and in every cell the conductivity '
     'and anisotropy ratio of the cell of the model at that position; constant heads are the given ones at the first and last column.',
     [CF], 'for all grids, models and heads', TESTED + 'no files.',
     [OUT], [('MODFLOW writer', OUT)])
prop('C28', 'MODFLOW 6 input describes the generated model',
     'The MODFLOW 6 files, read by flopy, have the grid of the model and in every cell conductivity, vertical '
     'conductivity and the orientation of the anisotropy of the cell at that position; heads, inflow and initial heads '
     'are those which the ini-file gives, for every combination of them.',
     [CF], 'for all grids, models and boundary conditions', TESTED + 'no files.',
     [OUT], [('MODFLOW 6 writer', OUT)])
prop('C29', 'HydroGeoSphere tables list the tensors and porosities of all cells',
     'The HydroGeoSphere tables list every cell once, in order, with the components of its conductivity tensor and its porosity, '
     'numbered from 1 without gaps.',
     [CF], 'for all grids and models', TESTED + 'no files.',
     [OUT], [('HGS writer', OUT)])
prop('C30', 'Missing optional packages only affect their own output formats',
     'If packages for some of the requested formats are not installed, all other requested files are written completely, whatever the '
     'order of the formats, a message tells which format could not be written, and formats are reported as saved exactly if '
     'they are. Unknown formats are rejected.',
     [FA, CF], 'for all subsets of missing packages and lists of formats', TESTED + 'no files.',
     [OUT], [('import of optional packages', OUT)])
prop('C31', 'Realizations and runs are independent of each other',
     'Every realization is a new simulation: a run with several realizations gives exactly the models which single runs give '
     'with the same random numbers, each in its own directory. Nothing that ran before in the same process has an influence on a '
     'run.',
     [HI, CF], 'for all sequences of realizations and of runs', TESTED + 'no second realization.',
     ['hyvr/sim.py', GEO + 'model.py'], [('loop over realizations', 'hyvr/sim.py')])
prop('C32', 'The command line program obeys its arguments and reports failure',
     'The program runs the ini-file it is given, with --overwrite (before or after the file name) overriding the ini-file; without '
     'a file it runs the test case of the package and removes its results. It ends with exit code 0 if and only if the results are stored; otherwise with another exit code and a '
     'message on the error stream, leaving earlier results as they were.',
     [HI, CF], 'for all sequences of program starts', TESTED + 'nothing about the program.',
     ['hyvr/__main__.py', 'hyvr/sim.py'], [('command line', 'hyvr/__main__.py')])
prop('C33', 'Elements fill each stratum as the strata section says',
     'Each stratum is built of elements one above the other without gaps, whose types are drawn from those listed for it with '
     'the given probabilities, and whose thicknesses are drawn around the mean given for the type in this stratum; the lowest one is '
     'cut off at the bottom of the stratum. With the avulsion probability of the stratum, an element is thinner by a depth from '
     'the avulsion range of the stratum; the contact on top of an element is flat or undulating as its type says.',
     [CF, IN], 'for all strata sections and all random draws', TESTED + 'no strata.',
     [GEO + 'stratum.py', GEO + 'model.py'], [('generation of elements', GEO + 'stratum.py')])
prop('C34', 'Moving the origin moves the model and changes nothing else',
     'If the origin of the model, the levels of the contacts between strata and manually placed objects are all moved by the same '
     'vector, then, with the same random numbers, all cells have the same strata, elements, objects, facies, angles and '
     'parameters as before.',
     [CF, IN], 'for all models, vectors and random numbers', TESTED + 'no model with an origin other than 0.',
     [GEO + 'model.py', GEO + 'grid.py'], [('use of absolute coordinates', GEO)])
prop('C35', 'A run whose file operations fail does not end as if it had succeeded',
     'If an operation on files or directories that a run needs (reading the ini-file, removing old results, making directories, '
     'creating, writing or closing files) fails, the run ends with an error, unless all requested files are complete '
     'nevertheless; and only formats whose files are complete are reported as saved.',
     [FA, CF], 'for every single failing operation of a run, all formats', TESTED + 'no run, and no fault.',
     [OUT, PA, 'hyvr/sim.py'], [('output writers', OUT), ('directories and backup', PA)])

prop('C36', 'A run that is interrupted at any point can be repeated',
     'If a run ends abruptly at any point (the process is killed, also in the middle of writing a file), nothing outside of the '
     'run directory has changed, the ini-file included; repeating the run without overwriting is refused and changes nothing (or '
     'is complete, if there was no run directory yet), and repeating it with overwriting gives exactly the results of an '
     'undisturbed run, without remainders of the interrupted one.',
     ['crash_points', CF], 'for every crash point and torn write of a run, all formats', TESTED + 'no run, and no crash.',
     [PA, 'hyvr/sim.py', OUT], [('directories and backup', PA), ('output writers', OUT)])
prop('C37', 'Objects do not depend on the resolution of the grid',
     'Strata, elements, troughs, channels, lenses, beds, facies and angles are functions of the position: if the spacings of the '
     'grid are divided, then, with the same random numbers, all cells whose centres were there before have the same values as '
     'before (for flat contacts, and parameters that are constant within facies).',
     [CF, IN], 'for all models, refinements and random numbers', TESTED + 'no grid.',
     [GEO + 'model.py', GEO + 'grid.py', GEO + 'trough.pyx', GEO + 'channel.pyx'], [('assignment of points', GEO)])
prop('C38', 'The unit of length does not matter',
     'If all lengths of a model (domain, spacings, origin, contacts, sizes and positions of objects, correlation lengths) are given in another '
     'unit, then, with the same random numbers, all cells have the same strata, elements, objects, facies, angles and parameters as '
     'before, for models with troughs and sheets.',
     [CF, IN], 'for all models with troughs and sheets, units and random numbers', TESTED + 'no model.',
     [GEO + 'model.py', GEO + 'trough.pyx', GEO + 'sheet.py', 'hyvr/utils.py'], [('lengths', GEO)])
prop('C39', 'Names and the order of definitions do not matter',
     'Renaming facies, elements or strata, reordering the list of hydrofacies (with its parameters) or of elements, adding facies or '
     'elements that are not used, and shuffling the sections of an ini-file and the options within them change, with the same '
     'random numbers, nothing but the names and the numbers that stand for facies and elements.',
     [CF], 'for all models, names, orders and random numbers', TESTED + 'no model.',
     [PA, OP, GEO + 'model.py'], [('names and indices', PA)])

prop('C40', 'Results do not depend on their place and can be moved',
     'The files of a run are the same (but for dates) whatever the name and depth of the model directory, and however the ini-file and '
     'the directory are addressed (absolute, relative to the working directory, through links). A run directory that is moved '
     'can be read at its new place, and running its backup there (with overwriting) gives the same results there and nothing at the old place.',
     [CF, HI], 'for all formats, directories and ways to address them', TESTED + 'nothing about result files.',
     [OUT, PA], [('names of files', OUT), ('choice of directories', PA)])
prop('C41', 'Runs at the same time do not disturb each other',
     'Runs in other run directories that are executed at the same time, in the same model directory or in one that does not exist '
     'yet, give exactly what they give alone. Of two runs that want the same new run directory, exactly one gets it and is '
     'complete, and the other one is refused and changes nothing; a run that is refused because of existing results does '
     'not disturb one that may replace them.',
     ['schedules', CF], 'for every interleaving of the file operations of two runs, all formats',
     TESTED + 'no run, let alone two at the same time.',
     [PA, 'hyvr/sim.py', OUT], [('directories and backup', PA), ('output writers', OUT)])
prop('C42', 'Large numbers of things are handled like small ones',
     'Hydrofacies, strata, elements, types of elements, objects, beds, cells along each axis, alternatives, realizations and characters of '
     'names may be as many as memory allows: every cell gets the values of its stratum, element, object and facies, all objects '
     'and elements have different numbers, which are not negative, and each realization has its own directory.',
     [IN, CF], 'for all numbers of things', TESTED + 'models with a handful of everything.',
     ['hyvr/assign_points.py', GEO + 'ae_realization.py', GEO + 'model.py', 'hyvr/sim.py', 'hyvr/utils.py'],
     [('arrays of objects', GEO + 'ae_realization.py'), ('arrays of the model', 'hyvr/assign_points.py')])
prop('C43', 'Results depend on nothing but the ini-file and the random numbers',
     'With the same random numbers, a run gives the same files whatever the environment of the process is: hash seed, locale, optimization '
     'of the interpreter, time zone, working directory, variables, streams, permissions of new files, number of threads, options of '
     'numpy, and runs before and after it; invalid ini-files are rejected in all of them.',
     [CF, HI], 'for all environments, formats and models', TESTED + 'one environment.',
     [PA, OP, GEO + 'model.py', OUT], [('reading of ini-files', PA), ('output writers', OUT)])

prop('C44', 'An option changes nothing but what it describes',
     'With the same random numbers, changing an option of an element type changes only cells that belong to this type before or '
     'afterwards (those of its objects only, if it describes their inside), background options only background cells of the type or of the '
     'stratum, parameters of a facies only this parameter in cells of the facies, parameters of the lag only cells that enter or leave '
     'it; options of conductivity never change porosity or vice versa, and hydraulic parameters, flow boundary conditions, formats, '
     'name and number of realizations never change the geology.',
     [CF, IN], 'for all models, all options and all changes of one or several of them', TESTED + 'no model at all.',
     [GEO + 'model.py', GEO + 'ae_realization.py', PA], [('generation of objects and parameters', GEO), ('setup of the sections', PA)])

NOTE = ('Every case is one complete execution of the unmodified code through its public entry points with all random draws '
        'answered by an explorer, compared with an independent reference model. Holds for everything within the stated bounds; '
        'trusts numpy, the readers used by the oracle, and the reference model.')


def main():
    sys.path.insert(0, '/repo')
    checks = []
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for (a, k) in P:
            pid, title, statement, over, q, why, files, mech = a
            assert len(title) <= 80, (pid, len(title))
            f.write(json.dumps(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=q),
                                    why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))) + '\n')
            mod = importlib.import_module('checks.' + pid.lower())
            py = '/opt/venv/bin/python run.py %s ' % pid
            checks.append(dict(property=pid, quick_cmd=py + 'quick', thorough_cmd=py + 'thorough',
                               technique=getattr(mod, 'TECHNIQUE', TECH[mod.LEVEL]), level=mod.LEVEL, level_note=NOTE))
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python run.py --selftest', checks=checks, not_applicable=[],
                       notes='No hooks: the checks copy /repo/hyvr, compile its extensions in a scratch directory and replace '
                             'numpy.random by an explorer.'), f, indent=1)
        f.write('\n')
    text = []
    for (a, k) in P:
        pid, title = a[:2]
        mod = importlib.import_module('checks.' + pid.lower())
        b = mod.BOUNDS if isinstance(mod.BOUNDS, dict) else {'quick': mod.BOUNDS, 'thorough': mod.BOUNDS}
        text.append('### %s %s\n\n* Enumerated and compared: %s.\n* Bounds (quick): %s.\n* Bounds (thorough): %s.\n%s* Anchored in: %s.\n'
                    % (pid, title, mod.RULE, b['quick'], b['thorough'],
                       ''.join('* Assumption: %s.\n' % x for x in getattr(mod, 'ASSUMPTIONS', [])), ', '.join(a[6])))
    path = os.path.join(VERIF, 'DESIGN.md')
    old = open(path).read() if os.path.exists(path) else '# Design\n\n<!-- properties -->\n<!-- end -->\n'
    pre, rest = old.split('<!-- properties -->\n', 1)
    post = rest.split('<!-- end -->\n', 1)[1]
    open(path, 'w').write(pre + '<!-- properties -->\n' + '\n'.join(text) + '<!-- end -->\n' + post)


TECH = {'model_checking': 'explicit-state exploration of the real code: bounded exhaustive enumeration of inputs, configurations, '
                          'random answers and histories against a reference model',
        'fault_enumeration': 'exhaustive enumeration of missing-dependency faults on the real code against a reference model'}

if __name__ == '__main__':
    main()
