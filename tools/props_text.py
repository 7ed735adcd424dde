prop("C01", "Integer division helpers round exactly as documented for every sign",
 "Dividing two integers with rounding to nearest, down or up gives exactly the integer that lies nearest to, not above, respectively not below the real quotient, for every combination of signs and sizes; and interpolating a value over an integer range gives 0 at its start, 1 at its end, and a number in [0,1] exactly for values inside it.",
 ["inputs"], "all signed dividends to 2^40 and divisors to 2^21, all unsigned ones to 2^41; all ranges and values to 10^6",
 "The unit tests sample about a dozen pairs; a wrong rounding shows only at particular remainders and sign combinations.",
 ["include/utils/math.h"], [("rounding division helpers", "include/utils/math.h"), ("inverse_lerp", "include/utils/math.h")], observe=["returned quotients"])

prop("C02", "Distances and projections onto segments agree with exact geometry",
 "For any segment and any point: the closest point reported lies on the segment, at the projection or at the end the projection falls beyond; the squared distance agrees with the exact distance up to coordinate rounding, and the before/within/after classification is exact; the closest connection between two segments joins an end point of one to its projection on the other and no other end point is closer; and the comparison 'shorter than' is exact.",
 ["inputs"], "every segment and point within the stated coordinate ranges, degenerate and axis-aligned segments included",
 "Tests list some dozen point/segment pairs; errors in the end-point handling or the rounding of the projection appear only at particular positions and directions (one such error was found and repaired here).",
 ["src/utils/linearAlg2D.cpp", "include/utils/linearAlg2D.h", "include/geometry/Point2LL.h"], [("LinearAlg2D distance functions", "src/utils/linearAlg2D.cpp"), ("shorterThen", "include/geometry/Point2LL.h")], observe=["returned points, distances and classifications"])
prop("C03", "Side-of-line, corner and containment tests are exact",
 "The side a point lies on of a line, whether a horizontal ray from it crosses an edge, whether it lies in the interior of a corner, whether an edge collides with an axis-aligned edge, and whether or in which polygon of a shape with holes and islands a point lies are decided exactly as in real plane geometry, with points on the border reported on the side the interface documents.",
 ["inputs"], "all coordinates within the stated ranges; all triangles within a small grid; a nested outline, hole, island and neighbour with every query point",
 "The number of degenerate positions (on a vertex, along an edge, collinear) is beyond sampling, and each can flip the answer.",
 ["src/utils/linearAlg2D.cpp", "src/geometry/Shape.cpp"], [("LinearAlg2D predicates", "src/utils/linearAlg2D.cpp"), ("Shape::inside, Shape::findInside", "src/geometry/Shape.cpp")], observe=["returned truth values and indices"])
prop("C04", "Intersections of lines and segments are where the lines cross",
 "Where a line or segment crosses a horizontal line, another line or another segment, the reported intersection is the exact crossing up to coordinate rounding; a crossing is reported for segments exactly when they cross, and none for parallel lines.",
 ["inputs"], "listed line directions crossed with every position in the stated ranges",
 "Each sign combination and each touching configuration is its own case; the tests hold a handful.",
 ["src/utils/linearAlg2D.cpp", "include/utils/linearAlg2D.h"], [("line intersection functions", "src/utils/linearAlg2D.cpp")], observe=["returned intersections"])
prop("C05", "Numbers in G-code text denote the value that was meant",
 "A coordinate in micron is printed as a decimal number of millimetres which denotes exactly that coordinate, and a real value printed with a limited number of decimals denotes the value rounded to that many decimals; trailing zeros are dropped without changing the value and no malformed number is ever printed.",
 ["inputs"], "every micron coordinate that fits 32 bits; every multiple of 1/1000 in the stated range, for 1 to 5 decimals",
 "Which digits are trimmed depends on the digits of the value; the tests print a few dozen values.",
 ["include/utils/string.h"], [("writeInt2mm, MMtoStream", "include/utils/string.h"), ("writeDoubleToStream, PrecisionedDouble", "include/utils/string.h")], observe=["printed text"])
prop("C06", "Executing the produced G-code deposits exactly the planned material at the planned places",
 "For every history of travels, extrusions, retractions, z-hops, extra priming and extruder switches, a printer that executes the written text stands at the requested position (nozzle offset and z-hop included), has fed exactly the filament of the planned lines minus the retraction in force, starts each line unretracted, primed and un-hopped, never extrudes on a travel, never retracts more often than allowed within the configured extrusion window, and the reported filament use equals what was deposited - in absolute, relative, volumetric and firmware-retraction mode. Flow-rate compensation shifts the extruder by the requested offset, once.",
 ["inputs", "histories"], "all histories of three operations (thorough: four) with symbolic flows, distances, heights and positions, in five modes",
 "The G-code writer is a state machine over a dozen variables; the error shows only after particular sequences (retract after prime after switch ...), which the few single-call tests do not contain.",
 ["src/gcode_export/gcodeExport.cpp", "include/gcode_export/gcodeExport.h"], [("writeTravel/writeExtrusion/writeFXYZE", "src/gcode_export/gcodeExport.cpp"), ("writeRetraction, writeUnretractionAndPrime, addExtraPrimeAmount", "src/gcode_export/gcodeExport.cpp"), ("writeZhopStart/End", "src/gcode_export/gcodeExport.cpp"), ("switchExtruder, resetExtrusionValue", "src/gcode_export/gcodeExport.cpp")],
 state=[("current_e_value_", "last E value written", "include/gcode_export/gcodeExport.h"), ("extruder_attr_", "per-extruder retraction, priming and filament totals", "include/gcode_export/gcodeExport.h"), ("current_position_", "last position written", "include/gcode_export/gcodeExport.h")], observe=["the G-code text"])

prop("C07", "Estimated print time is the time the firmware's motion planner needs",
 "The estimated time of a sequence of moves is what the documented firmware model takes: each move follows a trapezoidal (or triangular) speed profile limited by the axis speed and acceleration limits, junction speeds are the highest reachable ones within the jerk limit, look-ahead propagates speeds backward and forward; a move never takes less than its length divided by its speed; time is charged to the feature that spends it and waiting time is charged once.",
 ["inputs", "histories"], "all lengths of one to three moves in a row (one of them fully symbolic), listed speeds, directions and acceleration settings",
 "The profile has a case distinction per move and per junction whose outcome depends on all neighbours; the tests check a handful of lengths.",
 ["src/timeEstimate.cpp"], [("plan, calculate, plannerReversePass, plannerForwardPass", "src/timeEstimate.cpp"), ("calculateTrapezoidForBlock", "src/timeEstimate.cpp")],
 state=[("blocks", "planned moves with entry speeds", "include/timeEstimate.h")], observe=["duration per feature"])

prop("C08", "Spatial lookup never misses what lies within range",
 "A grid lookup visits every cell that a line passes through, that an axis-aligned triangle covers or that lies within the radius of a query point; a point grid returns every element within the radius, once, the nearest eligible one and any one, whenever they exist; a line grid finds every line near the query point; processing stops when asked to.",
 ["inputs"], "cell size 10, all coordinates in ranges that contain negative, zero-straddling and positive cells; grids of two points (thorough: three)",
 "Whether a cell is missed depends on where a line cuts the cell borders, in particular around the double-width cells at the origin; the tests hold a dozen lines (one miss was found and repaired here).",
 ["src/utils/SquareGrid.cpp", "include/utils/SparseGrid.h"], [("processLineCells, processAxisAlignedTriangle, processNearby", "src/utils/SquareGrid.cpp"), ("getNearby, getNearest", "include/utils/SparseGrid.h"), ("getAnyNearby", "include/utils/SparsePointGrid.h")], observe=["visited cells, returned elements"])
prop("C09", "Sets, spanning trees and bounding boxes keep their invariants",
 "After any history of unions two elements have the same representative exactly if they were united; a minimum spanning tree joins all its points, with n-1 edges, none replaceable by a shorter one; a 2D or 3D bounding box is the smallest that contains what was included, and its containment, overlap, extension, translation and distance queries are exact, empty boxes included.",
 ["inputs", "histories"], "union-find: every history of four (thorough: five) unions; trees of four (thorough: five) points; boxes with all coordinates to 10^6, distances for listed boxes and every query point",
 "Union-find errors need several unions in a particular order, box errors a particular relative position; two defects the tests do not show were found and repaired here.",
 ["include/utils/UnionFind.h", "src/utils/MinimumSpanningTree.cpp", "src/utils/AABB.cpp", "src/utils/AABB3D.cpp"], [("UnionFind::unite, find", "include/utils/UnionFind.h"), ("MinimumSpanningTree::prim", "src/utils/MinimumSpanningTree.cpp"), ("AABB", "src/utils/AABB.cpp"), ("AABB3D", "src/utils/AABB3D.cpp")], state=[("parent_index, rank", "the forest of sets", "include/utils/UnionFind.h")], observe=["representatives, edges, boxes and distances"])

prop("C10", "Settings are found at the documented level and read in the documented units",
 "The value of a setting is the one of the nearest level that defines it: the object's own, else the extruder's the setting is limited to, else the parent's; presence queries agree with lookups. Texts are read as documented: millimetres to the nearest micron, percentages as ratios, degrees within one turn, layer numbers from one, extruder -1 as the object's own or as all, every enumeration text as its value with the documented default, and lists, polygons, matrices and flow-temperature graphs element by element; the flow graph is interpolated and clamped.",
 ["inputs", "configurations"], "every combination of five levels defining a key; every listed text; symbolic numbers to 1000 in the listed layouts",
 "The combinations of levels, texts and number values are beyond sampling; the tests read one value per type.",
 ["src/settings/Settings.cpp", "src/settings/FlowTempGraph.cpp", "include/settings/types/Angle.h"], [("Settings::get, has", "src/settings/Settings.cpp"), ("FlowTempGraph::getTemp", "src/settings/FlowTempGraph.cpp"), ("AngleDegrees", "include/settings/types/Angle.h")], observe=["values returned"])

prop("C11", "Wipes, z-hops and retractions spread over other moves leave the nozzle where and as it was",
 "When a retraction or the priming after it is spread over standing still, rising, travelling and descending, the nozzle is at the requested position and height and has retracted exactly the requested amount after every part, reaches the requested part of the hop with the retraction complete, and starts the next line at layer height, primed, depositing exactly its material. A nozzle wipe strokes over the brush at the requested height, retracted as configured, as often and as far as requested, and returns the head and the filament to where they were.",
 ["inputs", "histories"], "all retraction, travel and priming amounts to 3 mm and hop heights to 5 mm with listed split ratios, in four modes; all brush positions, stroke lengths, hop heights and retraction amounts with up to 2 (thorough 3) strokes",
 "Where a split hop ends and how much remains to be primed depends on a chain of state variables across calls; no test executes the produced text (two defects of this kind were found and repaired here).",
 ["src/gcode_export/gcodeExport.cpp"], [("writeZhopStart/End, writeTravel with retraction, setZHopPrimeLeftover", "src/gcode_export/gcodeExport.cpp"), ("insertWipeScript", "src/gcode_export/gcodeExport.cpp")], state=[("is_z_hopped_, z_hop_prime_leftover_", "height and priming still outstanding", "include/gcode_export/gcodeExport.h")], observe=["the G-code text"])
prop("C12", "The firmware's temperatures, fan speeds, accelerations and jerk are those last requested",
 "After every history of commands, executing the written text leaves every heater (nozzles, shared heaters, bed, chamber) at the temperature last requested for it, waited for when that was asked; the active tool is the current extruder; every fan runs at the requested speed in the scale its firmware expects; and the print and travel acceleration and the jerk are the last requested ones - in the syntax of each G-code flavour.",
 ["inputs", "histories"], "every history of three (thorough: four) commands over listed values, fan speeds fully symbolic to 0.1 %, in the listed flavours and machine configurations",
 "Commands are left out when the writer believes the state is already reached; a wrong belief shows only after a particular history (one such error, fan speeds below 0.5 %, was found and repaired here).",
 ["src/gcode_export/gcodeExport.cpp", "include/utils/string.h"], [("writeTemperatureCommand, writeBedTemperatureCommand, writeBuildVolumeTemperatureCommand", "src/gcode_export/gcodeExport.cpp"), ("writeFanCommand", "src/gcode_export/gcodeExport.cpp"), ("writePrintAcceleration, writeTravelAcceleration, writeJerk", "src/gcode_export/gcodeExport.cpp")], state=[("current_fan_speeds_, current_*_acceleration_, current_jerk_, bed_temperature", "what the writer believes the firmware is set to", "include/gcode_export/gcodeExport.h")], observe=["the G-code text"])
prop("C13", "Outline operations keep the geometry they promise to keep",
 "The convex hull of a shape is the convex polygon through some of its points that contains all of them; filtering small areas keeps exactly the outlines of at least that area and holes of what is kept; the length, the segments and the splitting of open and closed lines agree; choosing another start point keeps the cycle; rotating a point and back gives the point; a segment crosses an outline exactly where it does; and pruning spikes or tiny edges only removes points, in order, and only such points.",
 ["inputs"], "hulls of four points on a 13 x 13 grid (thorough: five points to 100); all sizes of four nested or separate outlines; all lines of up to four points with coordinates to 10^6; all segments along the axes; all quadrilaterals on a 31 x 31 grid",
 "Collinear, coincident and degenerate configurations decide these operations; tests hold a few generic shapes.",
 ["src/geometry/Shape.cpp", "src/geometry/Polygon.cpp", "src/geometry/Polyline.cpp", "src/geometry/ClosedPolyline.cpp", "src/geometry/LinesSet.cpp", "src/geometry/PointMatrix.cpp"], [("Shape::makeConvex, removeSmallAreas, intersectionsWithSegment", "src/geometry/Shape.cpp"), ("Polyline::length, shorterThan, segments", "src/geometry/Polyline.cpp"), ("ClosedPolyline::shiftVerticesToStartPoint", "src/geometry/ClosedPolyline.cpp"), ("LinesSet::removeDegenerateVerts, splitIntoSegments", "src/geometry/LinesSet.cpp"), ("Polygon::smooth2", "src/geometry/Polygon.cpp"), ("PointMatrix", "src/geometry/PointMatrix.cpp")], observe=["points of the results"])
prop("C14", "Wall lines fill the thickness of a part without gaps or overlap",
 "For every local thickness the number of wall lines is the one the thresholds for odd and even numbers prescribe, never decreases with thickness, changes exactly at the reported transition thicknesses and never exceeds the allowed number. The lines of a part lie symmetrically, in order and touching within it, their widths and what is left over make up the thickness, the outer lines keep their own width, differences go to the middle lines, thin parts get one line of at least the minimum width, marks bound the area left to other structures, and wall insets move positions only.",
 ["inputs"], "every thickness to 4.5 mm (numbers of lines) and 2.3-3 mm (widths; thorough: 8 mm) for five listed configurations of line widths, thresholds and limits, also with one line more or less than ideal, and every inset to 0.2 mm",
 "Each strategy is a piecewise function of thickness with breakpoints that must agree with those of four other functions; tests sample a few thicknesses.",
 ["src/BeadingStrategy/DistributedBeadingStrategy.cpp", "src/BeadingStrategy/RedistributeBeadingStrategy.cpp", "src/BeadingStrategy/LimitedBeadingStrategy.cpp", "src/BeadingStrategy/WideningBeadingStrategy.cpp", "src/BeadingStrategy/BeadingStrategy.cpp"], [("compute, getOptimalBeadCount", "src/BeadingStrategy/DistributedBeadingStrategy.cpp"), ("compute, getTransitionThickness", "src/BeadingStrategy/RedistributeBeadingStrategy.cpp"), ("compute, getOptimalBeadCount", "src/BeadingStrategy/LimitedBeadingStrategy.cpp"), ("compute", "src/BeadingStrategy/WideningBeadingStrategy.cpp"), ("insets", "src/BeadingStrategy/OuterWallInsetBeadingStrategy.cpp"), ("makeStrategy", "src/BeadingStrategy/BeadingStrategyFactory.cpp")], observe=["numbers, widths and positions of lines"])
prop("C15", "Adaptive layers cover the model with the thickest allowed heights",
 "With adaptive layer heights the first layer has its own height, every other one of the allowed heights around the base height, each layer lies directly on the one below, and layers are added until they reach above the top of the model and no further. Each layer is the thickest one for which the steps on the least inclined surface it cuts stay below the threshold, growing by at most one step and thinning out gradually, the thinnest when nothing is cut.",
 ["inputs"], "every base height from 60 to 200 micron and every threshold to 400 micron, with listed step sizes, variations, first layers and models of one or two facets",
 "The choice for each layer depends on all layers below; the tests hold one model.",
 ["src/settings/AdaptiveLayerHeights.cpp"], [("calculateLayers, calculateAllowedLayerHeights, calculateMeshTriangleSlopes", "src/settings/AdaptiveLayerHeights.cpp")], state=[("layers_", "heights and positions", "include/settings/AdaptiveLayerHeights.h")], observe=["layer heights and positions"])
