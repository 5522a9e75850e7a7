VN = ("Decides the stated equations on value numbers for symbolic real inputs in stated ranges; every code path is merged, none sampled. "
      "Trusts the library models; identities are tested by random interpretation (error probability negligible, differences < 1e-8 relative ignored). ")

prop("C01", "Image position to viewing ray and back is the identity for every projection",
     "For every projection type, intrinsic parameters and image position inside the projection's domain, projecting any positive multiple of the viewing ray of an image position returns that position, and the viewing ray of the image of a visible camera-frame point is parallel to that point. Requesting a normalised ray only changes its length, to one, for single positions and for every row of a batch.",
     INC, "all three projections x all focal lengths (x and y independent), principal points, image sizes, pixels and camera points",
     "test_transforms samples centred principal points with one focal length; x/y mix-ups and off-centre errors cancel there",
     [PRJ], [("getRay", "RectilinearProjection/CylindricalProjection/EquirectangularProjection.getRay"), ("imageFromCamera", "same classes, imageFromCamera")], VN)
prop("C02", "Each projection implements its documented formula",
     "A camera-frame point maps to the image position given by the projection's documented formula (pinhole: fx*x/z+cx, fy*y/z+cy with the documented signs; cylindrical: angle times fx, fy*y over horizontal distance; equirectangular: both angles times focal length), and the viewing ray of an image position is the documented inverse. Horizontal quantities use only the x parameters and vertical ones only the y parameters.",
     INC, "all projections, all intrinsic parameters with fx != fy and any principal point, all points",
     "tests always use one focal length and a centred principal point",
     [PRJ, "docs/source/projections.rst"], [("imageFromCamera/getRay", "projection classes")], VN)
prop("C03", "Field of view, focal length and image size are mutually consistent",
     "For every projection type the reported field of view equals the angle spanned by the image at the current focal length and image size, focal length from field of view and image size from field of view are its exact inverses in each axis, and a projection constructed from a view angle reports that angle. The relations keep holding after focal length or image size are changed.",
     INH, "all projections, focal lengths, image sizes, view angles and parameter changes",
     "tests check one construction; the inverse relation and later changes are not covered",
     [PRJ], [("getFieldOfView / focallengthFromFOV / imageFromFOV", "projection classes")], VN)
prop("C04", "All ways of specifying a projection agree and contradictions are rejected",
     "Every documented way to give the same intrinsics (separate or tuple arguments, image array, pixel focal length, millimetre focal length with sensor size, field of view, per-axis focal lengths, principal point default image centre) yields the same stored focal lengths, principal point and image size. Incomplete specifications (no or half an image size, no or half a focal length, millimetres without a sensor) and redundant ones (the same quantity given in two ways, or a view angle together with a focal length) raise ValueError instead of picking one silently.",
     INC, "all combinations of constructor arguments and values",
     "tests construct projections in two or three ways with fixed numbers",
     [PRJ], [("CameraProjection.__init__", PRJ)], VN)
prop("C05", "Camera pose is the documented rigid transform with an exact inverse",
     "For every position and every heading, tilt and roll, converting a space point to the camera frame applies the documented rotation (heading, then tilt, then roll; degrees) about the camera position at the given elevation, the reverse conversion is its exact inverse, distances are preserved, and directions are rotated without translation. The yaw-pitch-roll orientation obeys the same laws and single points, lists and batches give the same results.",
     IN, "all poses and points, both orientation classes",
     "tests use single axes or fixed angle sets and never the yaw-pitch-roll class",
     [SPA], [("_initCameraMatrix, cameraFromSpace, spaceFromCamera", SPA)], VN)
prop("C06", "A camera applies pose, projection and lens in that order, and inverts them",
     "The image of a space point is the lens-distorted projection of its camera-frame position, the ray of an image position starts at the camera position and runs in the direction of the rotated viewing ray of the undistorted position, and every point in front of the camera on the ray of an image position projects back to that position. This holds for every combination of projection, lens and orientation, single points and batches alike.",
     INC, "all projection x lens combinations, all parameters, points and pixels",
     "tests use a camera without lens distortion for the full chain",
     [CAM, PRJ, SPA, LEN], [("imageFromSpace, getRay", CAM)], VN)
prop("C07", "Back projection returns the ray point meeting the given constraint",
     "Back projecting an image position with a constraint on X, Y, Z or on the distance D returns the point of its viewing ray in front of the camera that satisfies exactly that constraint (default Z=0), for a scalar constraint or one per point, and not-a-number for all three coordinates when that point lies behind the camera. Projecting a visible space point and back projecting with its own X, Y, Z or distance returns the point.",
     IN, "all projections, poses, pixels, constraints (scalar and per point)",
     "tests cover Z back projection of a handful of points",
     [CAM], [("spaceFromImage", CAM)], VN)
prop("C08", "Points behind the camera are not-a-number and nothing else is",
     "With a rectilinear projection a point behind the camera plane is reported as not-a-number in both image coordinates unless hiding is switched off, points in front never are, and each point of a batch is judged on its own. The panoramic projections show points in every direction, including the camera's side plane, and back projection marks exactly the image positions whose ray does not reach the plane.",
     IN, "all points, poses, lenses and batches", "tests check one point behind and one in front",
     [PRJ, CAM], [("hide_backpoints", "RectilinearProjection.imageFromCamera"), ("factor < 0", "Camera.spaceFromImage")], VN)
prop("C09", "Lens distortion follows the documented polynomial and is undone by its inverse",
     "Distorting an image position moves it radially about the principal point by the documented polynomial (Brown: 1+k1 r^2+k2 r^4+k3 r^6 with r in focal lengths per axis; ABC: d r+c r^2+b r^3+a r^4 with d=1-a-b-c and r in half of the smaller image side), the principal point is a fixed point, and undistorting a distorted position returns it, over the whole radius range of the image (to radius 1.9). Zero coefficients and the no-distortion model leave all positions unchanged.",
     INC, "all coefficients giving an increasing polynomial, all intrinsics and positions",
     "tests use k1 or a only, square pixels and positions on the horizontal midline",
     [LEN], [("distortedFromImage, imageFromDistorted, _init_inverse", LEN)],
     VN + "The interpolating spline is abstracted by the exact inverse of the sampled function; its sampling grid and order are checked, its accuracy is not.")
prop("C10", "A camera always transforms like a fresh one with the same values",
     "After any history of parameter changes the camera's image positions, viewing rays and space points equal those of a camera newly constructed from its current parameter values. Changes may be made through a camera attribute, a part, the parameter set, the fit interface, defaults, None, uncertain values, sampling, resetting to the mean or the common focal length, and angles may lie beyond a full turn. Separately built cameras do not influence each other.",
     INH, "all projections, lenses and orientations x all ways of changing a parameter x all values",
     "derived state (rotation matrix, inverse spline, lens scale) goes stale only for particular parameter/lens/way combinations; tests change one or two parameters and then compare nothing but that parameter",
     [CAM, PRJ, SPA, LEN, PAR], [("callback", "cameratransform/parameter_set.py Parameter, ParameterSet.__setattr__/set_fit_parameters/sample"), ("_init_cam", "Camera.__init__, LensDistortion.setProjection")],
     VN + "Known finding: two cameras sharing one projection object (see known_findings.json).",
     state=[("R, R_inv, C", "cached orientation matrix"), ("inverse spline, scale, offset", "cached lens state")])
prop("C11", "Parameters read back what was stored, defaults, means and ranges included",
     "A parameter reads the same value through the camera, its part and the parameter set: the last stored value (zero included), its default when None was stored, the mean of an uncertain (mean, std) value, or a drawn value after sampling, which is drawn from exactly the stored distribution. Resetting to the mean restores the mean, a plain value ends the uncertainty, the defaults and ranges asked for by name are those the parts define (in the order asked), the common focal length sets both axes, and the list of unknown parameters of a type consists of exactly the parameters of that type without a stored value.",
     INH, "all parameters of all parts, all values and histories of assignments",
     "tests read three parameters back after plain assignments",
     [PAR, CAM], [("Parameter, ParameterSet, TYPE_*", PAR), ("__getattr__/__setattr__", "ParameterSet, CameraProjection, Camera, CameraGroup")], VN)
prop("C12", "Saving and loading restores the camera",
     "Loading a file written by save gives a camera with the same value for every stored parameter (orientation, projection, lens, GPS position, sensor, image size, defaults kept), the same kinds of projection, lens and orientation, and the same transformations, whether it is loaded as a new camera or into an existing one. Saving does not change the camera. The same holds for the parts that can be saved on their own.",
     INH, "all projections x lenses x orientations, all parameter values",
     "the test saves a camera without lens distortion and compares one transform",
     [CAM, PRJ, SPA, LEN], [("save/load/load_camera", CAM), ("__str__/load", "parts")], VN + "The file system is modelled as a map from names to contents; json as its round trip.")
prop("C13", "Top views and undistorted images sample the source at the right place",
     "Each pixel of the top view is the source image sampled at the image position of the space point that pixel stands for, for the given extent (xmin, xmax, ymin, ymax), scaling, plane height and hiding of back points, with the top row at the largest y. Each pixel of the undistorted image is the source sampled at the distorted position of its grid point. This holds for the first call and after any earlier calls, changed arguments or changed camera parameters. An image of the wrong size is rejected. The default extent covers what the image border sees and the default scaling keeps the number of pixels.",
     INH, "all cameras, extents, scalings, plane heights and sequences of calls",
     "there is no test of top view or undistorted images; stale maps need two calls",
     [CAM], [("getTopViewOfImage, generateMap, undistortImage, undistort_map", CAM)],
     VN + "cv2.remap is modelled as an uninterpreted sampling function of the source position: what is sampled is decided, resampling is not.",
     state=[("last_extent, last_scaling, map, map_undistort", "cached lookup maps")])
prop("C14", "Queries change neither their arguments nor the camera",
     "No public transformation, conversion or measurement changes the arrays, lists or tuples it is given or the stored parameter values of the camera. Asking the same question twice gives the same answer, also with other queries in between, and changing a returned result afterwards changes neither the camera nor later answers.",
     INH, "all cameras, all arguments, all interleavings of queries",
     "aliasing shows only when the caller reuses an argument or result; tests use each once",
     [CAM, PRJ, SPA, LEN, GPS, RAY], [("public functions", "Camera, parts, gps.py, ray.py")], VN)
prop("C15", "Batches give each point what a single call gives",
     "A transformation applied to a batch of points gives for each point the same result as applied to that point alone, for any batch size (one and the case of as many points as coordinates included), nested lists, integer arrays and per-point constraints, in the documented shape; transformations between image, camera and space, and object sizes, accept grids of points in the same way. Points of the wrong dimension are rejected rather than misread.",
     INC, "all transformations x batch shapes x values",
     "broadcasting errors show only for particular batch sizes; tests use one size each",
     [CAM, PRJ, SPA, LEN, GPS, RAY], [("transformations", "all modules")], VN)
prop("C16", "Great-circle distance, bearing and moves follow their formulas and agree",
     "The GPS distance and bearing of any two positions and the position reached by moving a distance in a bearing follow the documented great-circle formulas (radius 6371 km, degrees), the distance is symmetric and zero only for equal positions, moving by the distance in the bearing between two positions reaches the second one, moved positions keep the height, and batches, single positions and mixtures of both agree. Nearly equal positions keep their accuracy.",
     IN, "all positions, distances, bearings", "tests compare three positions with fixed numbers",
     [GPS], [("getDistance, getBearing, moveDistance", GPS)], VN)
prop("C17", "GPS and space coordinates convert into each other and along the camera chain",
     "Converting a GPS position to space gives its distance and bearing from the camera's GPS position (east x, north y) and the heights, the camera's position maps to the origin, and converting back returns the position (for the camera's own method up to the height of the camera). Image positions of GPS positions and the reverse are the composition of the conversion with the projection, all constraints passed on. Every documented way to set the camera's GPS position (three numbers, two numbers keeping the elevation, list, tuple, text; zero included) stores latitude, longitude and elevation.",
     INC, "all GPS positions, camera poses, constraints, ways of setting the position",
     "tests convert one position on the northern hemisphere",
     [GPS, CAM], [("gpsFromSpace, spaceFromGPS", GPS), ("gpsFromSpace, spaceFromGPS, gpsFromImage, imageFromGPS, setGPSpos", CAM)], VN)
prop("C18", "GPS texts are written and read without changing the position",
     "The formatted text of a GPS position is the documented decomposition into degrees, minutes and seconds, rounded with carry, with the sign or direction letter of the value, for every format and height. Reading a text in any of the documented notations (separators, letters, signs, minute and second marks, heights, lists, single coordinates) gives the position it denotes, and reading a formatted text returns the position to the precision of the format.",
     INC, "all positions x all formats and notations",
     "tests use six fixed positions; carries (59.99.. minutes) and values between -1 and 0 need special inputs",
     [GPS], [("formatGPS, gpsFromString, splitGPS", GPS)], VN)
prop("C19", "Ray intersections and areas are the geometric ones",
     "The intersection of two rays is the midpoint of their closest points (the intersection where they meet, not-a-number or the documented value where they are parallel), their distance is the length of the closest connection, the closest point of a ray to a point is its perpendicular foot, and triangle and polygon areas are the geometric areas, for every position, direction scale and batch. Triangulating the rays of two cameras to a common point returns that point.",
     IN, "all lines, points, scales of direction vectors, batches",
     "tests use one pair of crossing lines",
     [RAY, CAM], [("getClosestPointFromLine, getIntersectionLine, getPointFromLine, areaOfTriangle...", RAY)], VN)
prop("C20", "A ray hits a mesh at its nearest intersection in front of the camera",
     "The intersection of a ray with a triangle mesh is the nearest point of any triangle that lies on the ray in front of its origin, and not-a-number when the ray hits no triangle, runs parallel to the plane of a triangle or meets it only behind the origin. With planes requested the planes spanned by the triangles are used instead of the triangles. Every ray of a batch is treated on its own, and back projecting an image position onto a mesh is the intersection of its viewing ray with the mesh.",
     INC, "all rays, triangles (both windings), numbers of triangles, batches and camera poses",
     "tests use one triangle and rays starting at the origin; two triangles behind one another or behind the camera need special geometry",
     [RAY, CAM], [("ray_intersect_triangle", RAY), ("spaceFromImage(mesh=)", CAM)], VN)
prop("C21", "Cameras of a group behave like cameras built alone from their parts",
     "Every camera of a group transforms like a camera built alone from the projection, orientation and lens at its index, where a single part is shared by all cameras and shorter lists of parts are repeated. Its parameters are reachable under the name C<i>_name, shared ones under the plain name, and a change through the group, a member or the fit interface reaches exactly the cameras that own the parameter. Group images are the stack of the members' images, the baseline is the distance of the first two cameras, scaling the space scales all positions so that the baseline becomes the wanted one, and separate groups are independent.",
     INH, "all numbers of parts, projections, lenses, orientations, values and ways of changing them",
     "tests build one group of two cameras sharing the projection and read one parameter",
     [CAM, PAR], [("CameraGroup.__init__, __getattr__, __getitem__, imagesFromSpace, getBaseline, scaleSpace", CAM)],
     VN + "Known finding: one lens object shared by cameras with different projections follows the last one (known_findings.json).")
prop("C22", "The log probability is the sum of the documented terms of all observations",
     "Each kind of fit information adds exactly its documented term to the log probability of a camera or camera group: normal log densities of the residuals between observed object heights, object lengths, landmark positions (space and GPS), horizon positions, baselines and point correspondences and what the camera predicts with its current parameters, and the value of user supplied terms. Terms accumulate in any number, information marked for plotting only adds nothing, clearing removes all terms, an unknown variation becomes a parameter of its own, information of one camera does not affect another, and an undefined sum counts as minus infinity.",
     INH, "all observations (scalars, lists, per-point uncertainties), camera parameters and sequences of adding and clearing",
     "tests fit one camera with two kinds of information and accept a tolerance on the optimum",
     [CAM, PAR], [("addObjectHeightInformation, addObjectLengthInformation, addLandmarkInformation, addHorizonInformation, addBaselineInformation, addPointCorrespondenceInformation", CAM), ("getLogProbability", PAR)], VN)
prop("C23", "Fitting and sampling keep names, values, ranges and probabilities aligned",
     "A fit minimises minus the log probability of the camera at exactly the position it reports, starts at the given values and respects the given ranges whatever the order of the parameters, and leaves the camera with the optimum: every fitted parameter has its own value, all others are unchanged and all transformations agree with them. In a sampled trace each row's probability belongs to that row's values and every value lies in its range, afterwards the camera has the most probable row, sampling sets the camera to one whole row and returns its probability. A start without probability is replaced by random ones and rejected with ValueError if none has a probability.",
     INH, "all parameters of all parts, their order, values, ranges, step sizes, additional parameters, optimiser results and random numbers",
     "tests run one fit with a fixed order; misaligned names or stale positions show only for other orders, additional parameters or rejected proposals",
     [PAR, STA], [("fit, metropolis, sample, set_to_mean, set_trace", PAR), ("metropolis, FitParameter", STA)],
     VN + "scipy's optimiser is an arbitrary position, random generators are symbolic numbers in their range; convergence is not claimed.")
prop("C24", "The Metropolis sampler accepts, records, limits and adapts as documented",
     "Starting at the given position every iteration evaluates one proposal: the last accepted position plus the step times a (truncated) normal number, within the limits given. It is accepted if its probability is not lower or a uniform random number is below the ratio of the probabilities, and also while neither has a probability. After the burn-in (a number, or a fraction of the iterations) every iteration records the last accepted position with its own log probability. During the burn-in the width grows the more of the proposals are accepted (if more than half), shrinks the fewer are accepted (if less than a fifth) and is kept in between, afterwards it stays fixed, and the limits hold for every width. Values of a prior trace are rows of that trace, passed to the probability and recorded behind the position.",
     INH, "all log probabilities (minus infinity included), start positions, steps, limits, numbers of parameters, random numbers, burn-ins and acceptance histories",
     "tests do not sample; a wrong acceptance rule, stale probabilities or limits wrong after adaptation only bias the distribution",
     [STA], [("metropolis", STA)],
     VN + "Random numbers are symbolic numbers in their range. Convergence and the stationary distribution are not claimed; the number of recorded rows may differ by one from iterations minus burn-in.")
prop("C25", "Turning and scaling space keeps the images",
     "rotateSpace turns the camera clockwise about the origin: heading and position turn by the angle, nothing else changes, and every turned point has the image that the point had before, every viewing ray and back projection turns along, for every projection and lens. Rotations add up, a full turn changes nothing, other cameras stay. scaleSpace of a group scales the positions of all cameras: images of scaled points, angles and the scaled baseline follow.",
     INH, "all angles, scales, cameras, points, sequences of rotations",
     "there is no test of it; sign and order mistakes cancel at the angles and positions usually tried",
     [CAM, SPA], [("rotateSpace, scaleSpace, getBaseline", CAM)], VN + "Headings are compared as directions.")
prop("C26", "Measurements in the image are the true ones",
     "The height (length) measured from the images of foot and head (front and back) of an object is its true height (length) for every camera, plane of the foot and batch of objects. The distance to the horizon is that of the earth radius, the image horizon is the image of the directions to the horizon, the view cone and border follow the image corners, the area table gives the ground area of each pixel (its own value above the horizon), and the correspondence error of two cameras is the distance of a pixel from the epipolar line of the other one, zero for true correspondences.",
     INH, "all cameras (any tilt, roll, heading, elevation, lens), objects, batches",
     "tests measure a few objects with one camera; errors appear with roll, at the image axes, for objects off the ground or in batches",
     [CAM], [("getObjectHeight, getObjectLength, getImageHorizon, getImageBorder, getCameraCone, distanceToHorizon, generateLUT", CAM)],
     VN + "getImageBorder is claimed as implemented (image coordinates).")
prop("C27", "Intrinsic parameters read from an image are those of its EXIF data",
     "The focal length, sensor size and image size read from an image are the focal length of its EXIF data, the size of exactly this camera model in the sensor database (if wanted and listed) or else the image size divided by the focal plane resolution in its unit (inch by default, or centimeter), and the image size of the EXIF data; printing changes nothing. The database is downloaded once and used afterwards, and a failing download leaves no broken database behind: the next call with network gives the right result.",
     INH, "all EXIF values and units, camera models (also ones whose name begins or ends like another), database contents, network histories",
     "there is no test of it; resolution units, similar model names and interrupted downloads need special files and network states",
     [CAM], [("getCameraParametersFromExif, _getSensorFromDatabase", CAM)],
     VN + "Image files, the database file and the download are modelled (PIL's EXIF dictionaries, requests.get with a text, an error page or no connection).")
prop("C28", "Scene objects and extruded walls have the geometry asked for",
     "The polylines of a cube, rectangle or grid draw exactly its edges at the position and size asked for, are kept in the order added and belong to their scene only. extrudeLine covers exactly the wall over the line between both heights, without gaps, for every piece of the line, and a ray aimed at a point of the wall hits it there.",
     INH, "all positions, sizes, line points, heights; lines of 2-4 points",
     "there is no test of scenes, and meshes are tested at single rays; a missing or doubled triangle shows only for rays through it",
     [SCE, RAY], [("Scene.addCube, addRect, addGrid, add", SCE), ("extrudeLine", RAY)], VN)
prop("C29", "The relative pose from point correspondences reproduces the correspondences",
     "After setting the cameras of a group from point correspondences and a baseline, the first camera is unrotated at its old position and the second camera has exactly the position (at the given distance) and rotation for which every scene point has its images in both cameras and triangulates back to itself, also when the second camera is only shifted or only turned in its plane; intrinsic parameters and the given points are left alone.",
     INH, "all relative rotations (tilt 0 included), directions and lengths of the baseline, first positions, intrinsics with square pixels",
     "there is no test of it; a pose error looks like a bad correspondence, and a degenerate rotation (parallel cameras) needs its own case",
     [CAM], [("CameraGroup.setCameraParametersByPointCorrespondence", CAM)],
     VN + "cv2.findEssentialMat and recoverPose are modelled by their contract (rotation and unit translation of true correspondences; anything else handed to them gives an arbitrary pose).")
prop("C30", "Plots show the observations and what the camera predicts",
     "plotFitInformation draws for every kind of fit information (also information marked for plotting only) the observed image positions and the positions predicted with the current camera parameters - object heads at the given height above their feet, back ends at the given length, landmarks in space or with GPS positions, the horizon at the observed columns and over the image - each pair joined by a line, for single objects and batches with common or individual sizes, over the image, with the y axis pointing down and the limits of the image. Top views are shown over the extent they stand for. Scenes show every object from above, front and side and at its image position, and nothing is drawn unless asked for.",
     INH, "all cameras, observations, sizes, histories of parameter changes",
     "there is no test of plots; a wrong prediction looks like a bad fit and only shows with real data",
     [CAM, PAR, SCE], [("addObjectHeightInformation, addObjectLengthInformation, addLandmarkInformation, addHorizonInformation, getTopViewOfImage", CAM), ("plotFitInformation", PAR), ("plotSceneViews, renderImage", SCE)],
     VN + "matplotlib is replaced by a recorder of what is drawn in which axes; colours, markers and labels are not claimed (traces and epipolar lines: C32).")
prop("C31", "The printed description states the current parameters",
     "The text of a camera and of its parts names the kinds of projection and lens and states position, elevation and orientation angles, focal length, sensor and image size and every lens coefficient, each number being the current value of the quantity it is labelled with (rounded as documented, in metres, degrees, pixels, millimetres), after any change of parameters, defaults included. Printing changes nothing.",
     INC, "all parameter values, projections, lenses, orientations and ways of changing them",
     "the only test prints one camera and ignores the text",
     [CAM, PRJ, SPA, LEN], [("__str__", CAM), ("__str__", PRJ), ("__str__", SPA), ("__str__", LEN)], VN + "Numbers of a text are symbolic.")
prop("C32", "Trace and epipolar plots show the samples and the epipolar geometry",
     "plotTrace draws, for every sampled parameter (or the first N) and not for the probability, every skip-th sampled value in order, marks the most probable sample and the mean of the samples, in the given or its own axes, with or without the distribution alone. printTraceSummary prints for every parameter its mean and standard deviation, rounded to the digits of the deviation, also for a parameter that did not vary. plotMyEpiploarLines draws in each of the two images each observed point, the epipolar line of its partner, the closest point of that line and their distance, as a line and as a number at the point, over the given images. plotEpilines draws in each image the border, the observed points, the part of the estimated epipolar line of every partner inside the image (nothing for a line that misses it) and the epipole.",
     INC, "all samples, cameras, image points and options", "there is no test of these methods", [CAM, PAR, STA],
     [("plotTrace, printTraceSummary", PAR), ("plotTrace, printTraceSummary, print_mean_std", STA), ("plotMyEpiploarLines, plotEpilines", CAM)],
     VN + "matplotlib is replaced by a recorder; the estimated density of the samples, colours and labels are not claimed; estimated epipolar lines follow the contract of OpenCV and are decided for fixed lines; the texts of a summary are decided for fixed tables of samples.")
